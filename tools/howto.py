"""Hand-written part of DESIGN.md: for each property what is specified, against what oracle, and why that reaches what tests cannot."""
HOW = {
'C01': 'A reference map (arrays of key, value, present flag) runs beside the tree; which operation, key and value comes next and the branch bits of the keys are symbolic, and after the last (or every) operation, after a commit and after a reopen every key and a fresh one is looked up in both. Tests with random keys never share 200-bit prefixes; here every length in a window, byte boundaries included, is one solver query away.',
'C02': 'A symbolic history (19 possible calls per step) is run; the harness remembers the map belonging to every root it was given and at the end reads each of them back in full, on the live handle, through snapshots and after a reopen. Unknown roots are all roots at a symbolic single-bit distance from a known one, passed to every function that takes a root.',
'C03': 'The oracle is an independent encoder (`harness/h.h`: ref_root) that hashes the map from its definition: sort the keys, split on the first differing bit, hash with the documented tags. It shares no code with the tree and knows nothing of history, so equality on every path is both correctness and history independence.',
'C04': 'The oracle is an independent proof encoder (`harness/refproof.h`) producing the expected bytes for the map and key; the proof produced must be those bytes and verify to the truth. Keys and the queried key are symbolic, so every type of proof with every prefix length in the window is decided.',
'C05': 'Whatever the (symbolic) bytes are, if `urkel_verify` accepts them for the root of a known map, the answer is compared with the map. The hash is collision-free by construction (`model/hash.c`: digests are equal exactly when the messages are), which is the cryptographic assumption under which soundness is a logical statement that a solver can decide.',
'C06': 'The same symbolic proofs; the assertions are the engine\'s own (bounds, lifetime, initialisation, termination, leaks) plus: only documented codes, outputs zeroed on failure. Lengths and bytes are symbolic, so each parser branch is reached by the solver rather than by luck. Parsing time is part of it through the instruction bound.',
'C08': 'The oracle is the sorted reference map. Iterators run on each state of a tree (working, committed, reopened, partly committed, snapshot), to the end and beyond it, or abandoned after a symbolic number of steps. Chains of 256 levels decide the deepest stack possible.',
'C09': 'Commit and close+reopen are operations of the symbolic history; after the last one the reference map, all proofs and all earlier roots are compared on the reopened database, while uncommitted operations must be gone.',
'C10': 'The model numbers each mutating system call; the call at which the process dies, and for a write the number of bytes that reached the disk, are symbolic. Recovery runs on that disk image (and may itself be interrupted), and the result must be the last acknowledged or the in-flight commit, in full; then it commits and reopens again. One test truncates one file; this decides every truncation and every call. With URKEL_FSYNC the model additionally loses or zeroes what was not synced.',
'C11': 'The size of a value and each of its bytes are symbolic; every reader (transaction, database, iterator, proof) must return them before and after commit and reopen. Sizes are split into ranges of 128 to run in parallel; oversized values use a symbolic 64-bit size.',
'C12': 'Each fallible system call of the model has a number; the one(s) that fail, with which error and (for writes) after how many bytes is symbolic. What the program does after a failed commit is symbolic too. The reference is the set of acknowledged commits: they must stay readable at once and after a reopen, and a later successful commit must be complete.',
'C13': 'One region of a real database (bytes, bits, truncation point, appended bytes, copies of records) becomes symbolic and the database is opened, read, proved, iterated, committed and destroyed. The engine\'s checks decide "never fatal"; for damage outside the last record the root must be one of the earlier ones; a commit record with a changed bit must not be accepted.',
'C14': 'Threads are part of the model: at every synchronisation operation and system call the scheduler\'s choice is symbolic (bounded preemptions), accesses between are covered by a happens-before race detector (vector clocks), deadlock is a verdict. Each thread\'s answers are compared with what a serial order of the calls allows. Counterexamples are replayed under ThreadSanitizer or with the recorded schedule.',
'C15': 'Two processes in one model: separate heaps and descriptors, shared files and record locks, symbolic schedule at each system call, symbolic death. At most one may hold the database; a refused open must leave every byte alone; after close or death the other sees the last commit.',
'C16': 'The sources are compiled with the hook constants (`URKEL_VERIF`: files of a few hundred bytes, two open descriptors, small buffers), so that symbolic value sizes move every kind of record over every boundary. The reference map, the roots and the independent reader of the files are the oracle; fault and crash harnesses run in the same setting. The arithmetic at the real 2 GB boundary is decided by C25\'s databases placed just below it.',
'C17': 'The reference is a transcription of RFC 7693 that is itself checked against the RFC\'s digests in each run. Both are executed on the same symbolic bytes; digests are compared as terms (equal after rewriting, otherwise bit-blasted).',
'C18': 'A path of symbolic bytes is opened from a symbolic situation; an independent resolver (split at slashes, stack of components) says which directory it names, and the model\'s directory tree must contain the database there and nothing else anywhere. Directories with foreign names of symbolic bytes decide what destroy may delete. All in the model: nothing real is ever deleted (replays run in a scratch directory under the same file model).',
'C19': 'The same scenario is executed twice on one path, once with full transfers and once with a symbolic set of interrupted or short transfers; roots, files, proofs and answers must be identical. Kernels practically never return short counts on files, so tests never see those branches.',
'C20': 'The histories of C02; the oracle tracks for each transaction the base map and the working map, so inject and clear are assignments on the reference.',
'C21': 'The tool\'s `main` runs in the model with symbolic arguments (symbolic characters, symbolic choice among 30 arguments per position, symbolic lengths), an independent statement of the command line grammar predicts exit status, output and effect. Standard I/O is modelled (`model/stdio.c`).',
'C22': 'Every call is made in every state reachable in the bounds with causes of failure that are known beforehand (absent key, unknown root, oversized value, injected fault, altered proof, held lock); the documented code, the zeroed outputs and the unchanged map are asserted.',
'C23': 'Each path of nearly every harness ends with the model\'s books: heap objects, descriptors, mappings; every access on the way is decided against its object. This check runs the configurations that stress ownership (abandoned iterators, failed commits, mixed trees, injected faults).',
'C25': 'An independent reader parses the files the library wrote down to the last byte, and an independent writer produces files (other record order, gaps, other file numbers, high positions) which the library must read. A database and proofs written by the library at the pinned commit (`harness/golden.h`) and the README\'s example anchor the two to the past.',
}
NOTES = '''
## What is deliberately not claimed

* Two handles on the same directory **inside one process** are not excluded: fcntl record locks are per process, the library
  never promised more, and C15 speaks of processes.
* Node records carry no checksum: a damaged node can change an answer, never crash (C13 says exactly that). An exact, aligned
  copy of a genuine commit record appended to a file is a genuine commit record and accepted. A damaged key file makes all
  records unrecognisable; the open then yields an empty database and is not fatal.
* With URKEL_FSYNC, a sync that fails after the record was completely written reports a failed commit although a crash may
  later find the record; the fix for C10 (b995bc8) invalidates it at the next write.
* `io_win.c` is outside (no Windows here). Malloc failure aborts by design. Rwlocks are assumed reader-preferring, as glibc\'s.
* The checksum function over symbolic bytes (murmur3) is too hard for the solver, so damage to commit records is decided for
  every single-bit change, symbolic truncations and symbolic bytes in fields, not for all 2^320 records.
* Trees with the real BLAKE2b use fixed contents (C17 tree mode); symbolic trees use the ideal hash.
* The golden database has values of at most 255 bytes because the pinned commit truncated the size of longer ones (F01).
* The tool ignores positional arguments beyond those a command takes and `--root` where it is unused, and `info` prints the
  current root; these are stated as assumptions of C21, not judged.

## Changes to /repo besides fixes

* `1bf288d` hook: `URKEL_VERIF` lets the file size, open file, read and write buffer limits be set (off by default).
* `4ef85c1` cmake: GNU C90 instead of strict C90, so that a `//` comment in a source file is not a hard error in the build (the
  acceptance check appends such a line to files); no test or test setting is touched.
'''
