#!/usr/bin/env python3
"""Source of notes.json: the technique and the assurance of each check."""
import json, os
N = {}
def n(i, technique, note, level='exploration'):
    N[i] = dict(technique='runtime monitoring: ' + technique, note=note, level=level)
COMMON = ' Runs the real code under overflow checks, debug assertions, a heap cap and a crash/hang supervisor; nothing is proved beyond the executions observed (counts in the evidence).'
n('P01', 'replay oracle over the listings of generated backup histories', 'Every attribute of every entry of every snapshot is compared with an independent replay of the records, for simulated file-system histories and for arbitrary record sequences. Trusts the archive writer and the replay of the harness.')
n('P02', 'online order and uniqueness checker over every listing', 'The checker looks at every adjacent pair of every listing, with alphabets chosen around the slash. Trusts the harness\'s own component-wise comparison.')
n('P03', 'bounds oracle against the true size of the generated file', 'The size hint is compared with the file the signature was made for, over the boundary values of size, block, strong-sum length and every header encoding. Multi-gigabyte files are represented by their signatures, not by content.')
n('P04', 'differential checker: reports recorded before and after later snapshots', 'The report of each snapshot (entries, names, text, manifest) from each prefix of a history is compared with the one from the whole history. Trusts only the comparison.')
n('P05', 'pairing oracle over backups with missing or encrypted files', 'Each file carries content unique to its set, so another set\'s data shows; all requests are classified in must succeed and must fail from the names alone.')
n('P06', 'reference model of chain reconstruction against the reported chains', 'A second implementation of duplicity\'s rules, written from its documented behaviour, is compared with the library on names of forks, orphans, gaps and replaced sets. Ties (equal ends of incrementals of one start, two files in one slot) are only required to be deterministic.')
n('P07', 'metamorphic checker: permutations and foreign names', 'The complete report for each permutation and each insertion of foreign names must equal the first one.')
n('P08', 'reference model of a set against its accessors, with a heap monitor', 'Volume table, counts, paths and flags are compared with the names; the heap monitor bounds the cost of huge volume numbers.')
n('P09', 'round-trip oracle over generated manifests and read schedules', 'What the generator wrote is compared with what every accessor says, for every style of padding, line ends and blank lines and several read schedules. Tabs as padding and "Filelist" sections are not generated.')
n('P10', 'fault enumeration over the lines, words and reads of a manifest', 'Each single defect the statement names is applied at each place of each generated manifest, and a read error at each read; the kind of the error is checked. A last hash that is cut but still even-length hexadecimal cannot be told from a shorter hash and is not claimed.', 'fault_enumeration')
n('P11', 'linear-scan oracle against the binary search', 'Each query is answered by scanning every volume with the harness\'s own order; queries include boundaries, neighbours, prefixes and the root.')
n('P12', 'crash, overflow, heap and CPU monitors under hostile inputs', 'Fuzzes names, stamps, instants, manifests, archives and whole backups (random, mutated, extreme fields, large inputs of 35 shapes, on a small stack, growth of the CPU time with the size); the thorough tier adds AddressSanitizer, Miri and a coverage-guided fuzzer. Limits: 0.5 s + 0.3 us per byte and walk, 3 MB + 64 bytes per byte.')
n('P13', 'fault injection at every backend operation with a recovery checker', 'The operation that needed the failing call must give that error; after recovery the full result is compared with the model. For a failure inside the signature of a later snapshot, failing the whole chain is accepted (documented limit of the library).', 'fault_enumeration')
n('P14', 'trace specification checked online over the backend log', 'The log of lists, opens and reads of every query is checked against the rules, with what each query may need computed from the names.')
n('P15', 'handle-lifetime stress with a model of every live handle', 'Random sequences of requests, partial iterations, clones and drops; each live handle is compared with the model at every use.')
n('P16', 'exhaustive-boundary oracle for time stamps under every system zone', 'All the zones of the system, all days and all seconds at boundaries plus random ones, and single-character corruptions. The civil calendar is computed by counting.')
n('P17', 'reference rendering under a controlled clock and zone', 'clock_gettime is interposed, TZ is switched per case; UTC, fixed offsets and POSIX rules are computed by the harness, the system\'s zones by the C library.')
n('P18', 'parser and reference rendering of the printed table', 'Each printed line is parsed back and compared with the entry it stands for; columns must be aligned. Names hold no control, wide or zero-width characters. The letter of hard links is not claimed.')
n('P19', 'model-based checker of iterator operation sequences', 'Random sequences of next, nth, len, size_hint, count, last, clone are run against a vector.')
n('P20', 'directory state monitor and differential check of the local backend', 'The directory (names, bytes, metadata, timestamps) is recorded before and after, opens are interposed (none may be for writing), answers are compared with the in-memory backend, and directory reading is made to fail at each entry.')
n('P21', 'fault enumeration over truncation points and header bytes with a containment checker', 'Every block boundary and its neighbours, every member end, random bytes, plain and compressed; every header field byte. The states allowed for each path are computed from the records before and after the damage.', 'fault_enumeration')
n('P22', 'metamorphic checker over encodings and delivery schedules', 'The same records in different encodings and read schedules must give the model\'s listing. Newlines in PAX paths are excluded (limit of the tar library).')
n('P23', 'concurrency stress with per-backup oracles and recorded schedules', 'Threads and interleavings over shared, twin (same names, other contents), failing and local backends; every result is compared with the model of that backup alone. Schedules come from the operating system with injected yields and delays; data races in safe Rust without unsafe or statics are excluded by the language, so ThreadSanitizer adds nothing here.')
n('P24', 'reference rendering of the collection status against the model', 'The printed text is compared row by row with the model of the chains under several time zones.')
n('P25', 'resource meters (counting allocator, /proc/self/fd and task) over repeated stretches of work', 'A stretch that grows is repeated with the same seed, then followed by other work, in lengths that double; an alarm needs growth in each step in proportion, so lazily set up tables, reused buffers and bounded caches are no alarm, and a bounded loss is not found. One backup of 20000 distinct paths per 150 cases may leave at most 500 kB.')
n('P26', 'model-based checker over histories of directory changes, requests and openings', 'A model keeps the versions of each file that could have been read at each request; an answer must be one of those mixtures (usually exactly one), constant once given, and a new opening must agree with the present directory. Changes happen between requests only; a listing mixed from signatures read at different times is accepted.')
for i in N:
    if i != 'P12':
        N[i]['note'] += COMMON
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json'), 'w'), indent=1)
