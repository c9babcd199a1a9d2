#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

SIG="src/signatures.rs"; COL="src/collections/mod.rs"; FN="src/collections/file_naming.rs"; LIB="src/lib.rs"; MAN="src/manifest.rs"; RAW="src/rawpath.rs"; TF="src/timefmt.rs"; LOC="src/backend/local.rs"; BK="src/backend/mod.rs"

p("P01","A snapshot's file list is the replay of the backup history",
  "For every backup chain of any length and every snapshot in it, the listed entries are exactly the paths that exist after replaying that chain's signature archives up to that snapshot: a path recorded as signature or snapshot exists, a path recorded as deleted does not, an unmentioned path keeps its earlier state. Each listed entry carries the path bytes, type, modification time, numeric owner and group, user and group name, mode and link target of the last record made for it up to that snapshot. Archive members outside the signature, snapshot and deleted folders contribute nothing.",
  ["inputs","histories"],"Every file-system history (creations, edits, deletions, re-creations, type changes) with any path bytes, recorded as a chain of 1 to several hundred signature archives, whose members are in duplicity's path order or (repeated and shuffled members) are not.",
  "The tests replay three hand-made backups with at most three snapshots, friendly names and one user; they never meet sibling names that sort around '/', long chains, re-created paths or owner changes.",
  [SIG,LIB,RAW],[("merge of each signature archive into the path table","src/signatures.rs Chain::add_sigtar_to_snapshots"),("last record with index <= snapshot wins","src/signatures.rs SnapshotEntries::next"),("prefix parsing","src/signatures.rs parse_snapshot_path")],
  ["Backup::snapshots / Snapshot::entries / SnapshotEntries::as_signature","Chain::snapshots / Snapshot::files"],
  [("path table","per path, the list of records by snapshot index","src/signatures.rs Chain.files")])
p("P02","Listings are duplicate-free and in backup path order",
  "Every listing yields each path at most once, in strictly increasing path order, where paths are compared folder by folder (component by component, bytes within a component) as duplicity orders them. In particular a folder is followed by everything below it before any sibling whose name merely starts with the folder's name.",
  ["inputs","histories"],"Every chain of signature archives, in duplicity's order or not, every snapshot, every path alphabet including bytes below and above '/'.",
  "Tests compare three fixed listings whose names never contain a byte below '/' next to a folder of the same prefix, so a wrong order or a duplicated path cannot show.",
  [SIG,RAW],[("final sort of the path table","src/signatures.rs add_sigtar_to_snapshots"),("RawPath ordering","src/rawpath.rs")],["SnapshotEntries iteration"])
p("P03","Size bounds of entries are sound and tight",
  "For an entry recorded by a librsync (MD4 magic) signature, the reported lower and upper size bounds enclose the size of the file the signature was computed from and differ by at most one signature block; for an entry stored as a plain snapshot record both bounds equal the recorded size. When the record does not carry enough information, or its numbers cannot be represented, the size is reported as unknown rather than as a wrong number.",
  ["inputs"],"Every file size (0 to multi-gigabyte), block length, strong-sum length and archive header encoding (octal, base-256, PAX size), plus truncated or foreign-magic signature data.",
  "One test checks sixteen files of a fixed backup with one block length and one strong-sum length.",
  [SIG],[("bounds computed from block count","src/signatures.rs compute_size_hint_signature"),("exact size of snapshot records","src/signatures.rs compute_size_hint_snapshot")],["Entry::size_hint"])
p("P04","A snapshot's listing never changes when later snapshots exist",
  "What the library reports for a snapshot (entries and all their attributes, including user and group names) depends only on that snapshot's own and earlier signature archives in its chain. Adding later incremental snapshots or further chains, even ones that rename users, delete or retype files, leaves the report identical.",
  ["histories"],"Every history and every pair of its prefixes; every query order.",
  "Tests only look at complete fixed backups; no test compares a backup with a longer version of itself.",
  [SIG,LIB,COL],[("per-snapshot records selected by index","src/signatures.rs SnapshotEntries::next"),("user and group names kept with each record","src/signatures.rs PathInfo, NameSet")],["Snapshot::entries on truncated and full histories"])
p("P05","Each snapshot is paired with its own signatures and manifest",
  "The entries and the manifest offered for a snapshot come from the signature archives and the manifest whose file-name times belong to that very snapshot and chain. If one of those files is absent from the backup, or is in an unsupported encrypted form, asking for it gives an error: never a panic, never another snapshot's data, never an empty listing presented as success; snapshots whose own files and those of the earlier snapshots of their chain are present are unaffected.",
  ["configurations","inputs"],"Every directory of one or more chains with any subset of the signature and manifest files missing or encrypted, including chains that lost only their full signature and superseded incrementals.",
  "Both test backups are complete, so chain n always meets signature n and no lookup ever fails.",
  [LIB,COL],[("signature lookup per set","src/lib.rs _signature_chain, src/collections/mod.rs BackupSet::signature"),("manifest lookup per snapshot","src/lib.rs _manifest, SnapshotsIter"),("signature chain construction","src/collections/mod.rs compute_signature_chains")],["Snapshot::entries, Snapshot::manifest"],
  [("signatures / manifests caches","lazily loaded resources indexed by chain and snapshot","src/lib.rs Backup")])
p("P06","Chains are reconstructed exactly from file names",
  "From the file names alone the library derives exactly the chains duplicity defines: files (volumes, manifest, signature) sharing kind and times form one set, every full set starts a chain, and incrementals, in time order, attach to the chain that ends where they start (an incremental with the same start as the chain's last one but a later end replaces it); others are left out. Signature files form chains the same way but without replacement, backup chains come out by end time, signature chains by start time and incrementals in chain order, and the start, end and kind reported for each set and chain are the ones in the names.",
  ["inputs","configurations"],"Every collection of duplicity file names: any number of chains, interleaved chains, gaps, orphans, superseded incrementals, any letter case and any known suffix.",
  "Tests feed two fixed well-formed name lists; gaps, orphans, replacements and interleavings are never constructed.",
  [COL,FN],[("file name grammar","src/collections/file_naming.rs FileNameParser"),("grouping and chaining","src/collections/mod.rs compute_backup_sets / compute_backup_chains / compute_signature_chains, BackupChain::add_inc")],["Collections::from_filenames, backup_chains, signature_chains, Backup::snapshots"])
p("P07","Listing order and foreign files never change the result",
  "The backup described by a directory is a function of the set of duplicity file names in it: listing the same names in any order gives the same chains, sets and attributes. Names that are not duplicity names, including names that are not valid UTF-8, are ignored wherever they appear.",
  ["inputs","schedules"],"Every permutation of every name set, with arbitrary foreign names interleaved.",
  "Directory order is up to the file system; tests use whatever order they were written in and only duplicity-looking names.",
  [COL,FN,BK],[("grouping independent of arrival order","src/collections/mod.rs compute_backup_sets, BackupSet::add_filename"),("name filter","src/collections/mod.rs compute_filename_infos")],["Collections::from_filenames under permutation"])
p("P08","A set reports exactly its own files and flags",
  "A backup set reports for each volume number exactly the name of the file holding that volume, as many volumes as there are volume files, and the name of its manifest if one exists (and is complete if and only if it has one). It is compressed or encrypted if and only if one of its files is named so, partial if and only if its manifest or signature is, and volume numbers of any magnitude cost no more than small ones. The snapshot of a set says the same as the set, whatever was asked of the backup before.",
  ["inputs"],"Every set of volume, manifest and signature names, with gaps, arbitrary volume numbers and any suffix.",
  "Tests assert no volume count or volume path, and only one flag combination; the bundled expected collection-status output is never compared.",
  [COL,FN],[("volume table","src/collections/mod.rs BackupSet::add_filename, num_volumes, volume_path"),("flags","src/collections/mod.rs BackupSet::new, src/collections/file_naming.rs is_compressed/is_encrypted")],["BackupSet accessors"])
p("P09","Manifests round-trip",
  "Any manifest written in the documented format (host name, local directory, numbered volumes with start and end path, optional block numbers, hash type and hash) is parsed back to exactly what was written, for any path bytes, quoted and escaped as duplicity does. Neither the amount of padding between words, nor LF or CRLF line ends, nor blank lines, nor how the input is split into reads changes the result.",
  ["inputs"],"Every host, directory, volume count, path byte string (including quotes, backslashes, white space, non-UTF-8), block number and hash.",
  "Tests parse two fixed manifests and look at a handful of fields.",
  [MAN,RAW],[("line reader and word splitter","src/manifest.rs read_line, WordIter"),("unescape and hex","src/manifest.rs unescape, from_hex")],["Manifest::parse and accessors"])
p("P10","A malformed manifest is an error, never a partial manifest",
  "A manifest that ends before a line its header or a volume requires, lacks or misspells a keyword, lacks a path, hash type or hash, has a non-numeric volume or block number, a non-UTF-8 host, or volumes not numbered 1, 2, 3... is rejected with the error describing that defect. An I/O error while reading is reported as that I/O error, and no input makes parsing return success with volumes missing.",
  ["inputs","fault_sequences"],"Every valid manifest with every single structural defect at every position, and an I/O failure at every read.",
  "No test exercises any error path of the parser.",
  [MAN],[("typed errors","src/manifest.rs ParseError and ManifestParser")],["Manifest::parse result"])
p("P11","Path-to-volume lookup finds exactly the volumes holding the path",
  "For a manifest whose volumes are in backup order, the first and last volume reported for a path are the first and last volumes whose start-to-end range contains it, and none is reported when no range contains it. This holds for every path, under duplicity's component-wise path order, including the backup root and files split over any number of volumes with or without block numbers at the boundary.",
  ["inputs"],"Every ordered sequence of paths partitioned into volumes, every split of files over volumes, every query path inside, between and outside the ranges.",
  "Tests query four paths of one manifest.",
  [MAN,RAW],[("binary search over volumes","src/manifest.rs first_volume_of_path / last_volume_of_path")],["Manifest::first_volume_of_path, last_volume_of_path"])
p("P12","No input crashes, hangs or exhausts the process",
  "Whatever names a directory contains and whatever bytes its files hold, opening the backup, walking it, listing, parsing and displaying everything ends in a value or an error: no panic, arithmetic or stack overflow, abort or endless loop. Memory stays proportional to the amount of (uncompressed) input, and no small input causes long work.",
  ["inputs"],"Arbitrary byte strings as file names, signature archives, manifests and time stamps: random, and mutated from valid ones, with extreme numeric fields.",
  "Tests only use well-formed data; two of them merely check that printing one fixed backup does not panic.",
  [SIG,MAN,COL,FN,TF,LIB,RAW],[("checked parsing everywhere","src/*"),("size arithmetic","src/signatures.rs compute_size_hint_signature"),("time formatting","src/timefmt.rs PrettyDisplay")],["every public entry point, under overflow checks, debug assertions, an allocation monitor and (thorough) AddressSanitizer and Miri"])
p("P13","Backend failures are reported, never cached, never half-applied",
  "If the backend fails to list the directory, to open a file or in the middle of reading one, the operation that needed it returns that error; it never panics or returns incomplete data as success. The failure leaves no trace: once the backend recovers, the same operation on the same backup gives the full correct result, and results obtained earlier stay valid.",
  ["fault_sequences","histories"],"Every operation sequence with a failure injected at any listing, open or read, at any byte offset, of any error kind, any number of times.",
  "No test has a failing backend.",
  [LIB,SIG,MAN,BK],[("lazy loading with error return","src/lib.rs _signature_chain, _manifest"),("archive loading","src/signatures.rs Chain::from_sigchain")],["results of Backup::new, Snapshot::entries, Snapshot::manifest under a fault-injecting Backend"])
p("P14","Files are touched only on demand, at most once, and only listed ones",
  "Opening a backup lists the directory once and opens nothing; only asking for a snapshot's entries opens files, and then only signature files of that snapshot's chain, and only asking for its manifest opens that manifest. Whatever the sequence of queries, as long as none fails no file is opened twice, volumes are never opened, and no name is requested that the backend did not list.",
  ["histories"],"Every sequence of queries on every backup, observed at the backend boundary.",
  "No test observes the backend; caching and laziness could vanish unnoticed.",
  [LIB,SIG,COL],[("caches","src/lib.rs Backup.signatures / manifests")],["call log of a recording Backend"])
p("P15","Any number of handles can be held at the same time",
  "Entries and manifests handed out for any snapshots, the same one or different ones, can be held, iterated, cloned, dropped and requested again in any order and nesting. Every request succeeds regardless of which other handles are alive, and every handle keeps reporting the same data for its whole life.",
  ["histories"],"Every interleaving of requests, partial iterations and drops over the snapshots of a backup, including failing requests in between.",
  "Tests drop each handle before requesting the next one.",
  [LIB],[("interior mutability of the caches","src/lib.rs RefCell<Option<..>> borrows")],["Snapshot::entries / Snapshot::manifest while other handles are alive"])
p("P16","Duplicity time stamps decode to the exact instant",
  "A time stamp of the form YYYYMMDDtHHMMSSz, alone in lower case or in a file name in either case, decodes to exactly that UTC instant, for every valid date of years 1 to 9999 and whatever the process time zone, so distinct stamps keep their order. Text of any other shape (a missing or surplus character, a non-digit where a digit belongs) or naming an impossible date or time is not accepted.",
  ["inputs","configurations"],"Every second of every valid date, every process time zone; every single-field corruption.",
  "Tests decode one stamp in whatever zone the test process has.",
  [TF,FN],[("strptime based parser","src/timefmt.rs parse_time_str")],["timefmt::parse_time_str, BackupSet::start_time/end_time, SignatureFile.time"])
p("P17","Times are displayed correctly in any zone and at any moment",
  "The display of an instant shows month, day and time of day if it falls in the current year (at the moment it is shown) and month, day and year otherwise, computed in UTC or in the process's local zone (with its daylight-saving rules) as requested. This holds for every instant a backup can carry, whatever the current date; an instant too far away to have a 32-bit year shows as '?'.",
  ["inputs","configurations"],"Every instant (including before 1970 and far future), every time zone rule, every current time.",
  "Tests display three instants in two zones at the test's own date.",
  [TF],[("PrettyDisplay","src/timefmt.rs")],["TimeDisplay::into_local_display / into_utc_display under a controlled TZ and a controlled clock"])
p("P18","The textual listing shows every entry, faithfully and aligned",
  "Displaying a snapshot whose names hold no control characters prints exactly one line per entry, in listing order, with the entry's type letter and rwx mode (set-id and sticky included), user, group, size, local modification time and path, unknown values as '?' and the root as '.', in aligned columns. The letters follow the conventions of ls for every mode and for files, folders, links and pipes; other types show as '?'. A display that cannot be written in full reports the error.",
  ["inputs"],"Every listing, every mode value, type byte, missing or present owner, size and UTF-8 or non-UTF-8 path.",
  "The display test prints one listing without checking it; the mode test samples ten modes.",
  [SIG,RAW],[("Entry, EntryType, ModeDisplay and SnapshotEntriesDisplay","src/signatures.rs"),("RawPath display","src/rawpath.rs")],["Display of Entry and SnapshotEntries"])
p("P19","Iterators obey their contracts",
  "Every iterator the library hands out yields the same sequence however it is driven: stepping, skipping ahead, counting, taking the last, cloning half-way or starting over all agree, its announced length is exact at every point, skipping past the end exhausts it, and once finished it stays finished.",
  ["inputs","histories"],"Every iterator (snapshots of a backup, snapshots of a signature chain, entries, sets, chains, signature files), every length from 0 to several hundred, every sequence of iterator operations.",
  "Tests only iterate front to back with next.",
  [SIG,LIB,COL],[("hand-written nth/len","src/signatures.rs Snapshots"),("SnapshotsIter state machine","src/lib.rs SnapshotsIter")],["Iterator / ExactSizeIterator methods"])
p("P20","The local backend is faithful and read-only",
  "Over a local directory the library sees each directory entry exactly once and the exact bytes of each file, reports missing directories and files as errors, and gives the same answers as any other backend serving the same names and bytes. Nothing the library does creates, removes or modifies anything in the directory.",
  ["inputs","configurations"],"Every directory content (any name bytes, any file content, sub-directories, dangling links), before and after every kind of query.",
  "One test lists one directory and checks names only.",
  [LOC,BK],[("read_dir / File::open","src/backend/local.rs")],["LocalBackend::file_names/open_file; directory state before and after"])
p("P21","Damage to an archive stays contained",
  "If a signature archive is cut short or a member's header is corrupted, listings of earlier snapshots in the chain are unaffected, and the damaged snapshot's listing still reflects every record that lies wholly before the damage. Later snapshots are the replay of their own records over what the damaged snapshot shows. Nothing is reported that was not recorded in some archive of the chain.",
  ["inputs","crash_points"],"Every truncation point and every corrupted header byte of every archive in a chain, plain or compressed.",
  "No test reads a damaged archive.",
  [SIG],[("tolerant iteration over archive members","src/signatures.rs add_sigtar_to_snapshots")],["Snapshot::entries on damaged archives"])
p("P22","Results do not depend on how the same records are encoded or delivered",
  "The same sequence of records gives the same listings whether the archive is plain or gzip-compressed (any block structure), whether long names and links use GNU, ustar-prefix or PAX encoding, whether sizes and owner ids are octal, base-256 or PAX, whether folder members carry a trailing slash, and however the backend splits or interrupts its reads.",
  ["inputs","schedules"],"Every history, every combination of encodings per archive, every read-size schedule including one byte at a time and interrupted reads.",
  "Test data has one encoding produced by one duplicity version, read from fast local files.",
  [SIG],[("gzip / tar layering","src/signatures.rs add_sigfile"),("path and link bytes through extensions","src/signatures.rs add_sigtar_to_snapshots")],["Snapshot::entries for differently encoded archives"])
p("P23","Separate backups do not influence each other",
  "Backups opened in the same process, over the same or different backends, one after the other or at the same time from several threads, each report exactly what they report when they are alone. No query on one changes a result of another.",
  ["schedules","histories"],"Every set of backups, thread count and interleaving of their queries.",
  "Tests never check two live backups against each other.",
  [LIB,SIG,COL,MAN,TF],[("all state is owned by the Backup value","src/lib.rs Backup")],["results of concurrent workers against results obtained alone"])
p("P24","The collection status text agrees with the collection",
  "Displaying a collection prints, for every backup chain in order, its start and end times, the number of its sets and the total number of its volume files, then one row per set, full first, with its kind, local time and number of volumes. Displaying a signature chain prints its start and end times and the names of all its files in order. A display that cannot be written in full reports the error.",
  ["inputs"],"Every collection of duplicity names and every time zone.",
  "The display test prints one collection without checking it.",
  [COL,TF],[("Display of Collections, BackupChain, BackupSet, SignatureChain","src/collections/mod.rs")],["Display output"])
p("P25","Nothing is left behind and nothing piles up",
  "When a backup and everything obtained from it has been dropped, all the memory and the files that it used have been given back, whatever was asked, and also if files were missing or damaged, requests failed or iterations were abandoned: a process that opens and drops one backup after the other (other names, users and times every time) does not grow. While a backup stays open, asking the same requests again, failing ones included, takes no more memory, open files or threads. What is set up once for the process, whatever the backups, is no loss.",
  ["histories","inputs"],"Every sequence of backups, requests and failures, however long.",
  "Tests are short: they cannot see what is lost in each of many requests, and they never fail a request twice.",
  [LIB,SIG,MAN,COL,"src/backend/local.rs",TF],[("all state is owned by the Backup value","src/lib.rs Backup"),("files are opened for one request","src/lib.rs _manifest; src/signatures.rs from_sigfiles; src/backend/local.rs"),("interned names live with their chain","src/signatures.rs NameSet")],["heap in use, open files and threads of the process between stretches of the same work"])
p("P26","An open backup keeps its view while the directory changes; a new one is current",
  "Files of a backup directory may be removed, replaced, added or brought back between requests. An open backup keeps the collection that it found when it was opened, and what it has given (listings, manifests) stays what it was, whatever becomes of the files. What it has not read yet is what its files hold when they are read: if one of them is gone the request fails, without harm, and it works once the file is back. Opening the backup again, also through the same backend value, shows the directory and the contents as they are now.",
  ["histories"],"Every history of changes, requests and openings.",
  "All tests read directories that never change.",
  [LIB,SIG,MAN,"src/backend/local.rs"],[("collections computed once","src/lib.rs Backup::new"),("results kept, failures not","src/lib.rs ResourceCache for Backup"),("no state in the backend","src/backend/local.rs LocalBackend")],["answers of open and new backups after changes of their directory"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
