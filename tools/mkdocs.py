#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
T = 'src/tree.c'; S = 'src/store.c'; N = 'src/nodes.c'; P = 'src/proof.c'; IO = 'src/io_posix.c'; B = 'src/bits.c'; U = 'src/util.c'; H = 'src/blake2b.c'; C = 'src/urkel.c'
def m(*a): return [{'name': x, 'where': y} for x, y in a]
L = []
def prop(id, title, stmt, over, otext, why, files, mech, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': mech}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    L.append({'id': id, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': otext}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'A transaction is a map',
 'Within a transaction, get and has return exactly what the preceding inserts and removes imply: the last value inserted under each 32-byte key that has not been removed since, and "not found" for every other key. Removing an absent key reports not found and changes nothing; re-inserting an equal pair changes nothing. This holds for every set of keys, however long their shared prefixes, and commits or reopens in between do not change any answer.',
 ['inputs', 'histories'], 'all sequences of insert/remove/get/has/commit/reopen, all 32-byte keys (every shared-prefix length 0..255), all values',
 'The tests run one pseudo-random key sequence; random keys almost never share more than ~20 leading bits, so deep splits, collapses and byte-boundary prefixes are never executed.',
 [T, N, B], m(('insert / split', T + ': urkel_tree_insert'), ('remove / collapse', T + ': urkel_tree_remove'), ('lookup', T + ': urkel_tree_get'), ('prefix arithmetic', B)), observe=['urkel_tx_get', 'urkel_tx_has', 'urkel_get', 'urkel_has'])
prop('C02', 'Every committed root stays readable, unchanged, forever',
 'Once a commit has returned a root, reading, proving or iterating with that root yields exactly the map as of that commit, whatever is inserted, removed, committed, injected or reopened afterwards. A root that was never committed is refused with "not found" by every function that takes a root, and the refusal changes nothing.',
 ['histories', 'inputs'], 'all histories of commits and roots, all earlier roots, all unknown 32-byte roots',
 'The tests check a handful of roots right after making them, never all earlier roots after arbitrary later history, nor near-miss roots.',
 [S, T], m(('root lookup', S + ': urkel_store_get_history, urkel_store_has_history, urkel_store_read_history'), ('append-only writes', S + ': urkel_store_write')), state=[{'name': 'root cache', 'meaning': 'root hash -> location', 'where': S + ': urkel_cache_t'}], observe=['urkel_get', 'urkel_tx_create', 'urkel_iterate', 'urkel_prove', 'urkel_inject'])
prop('C03', 'The root is the documented hash of the map, whatever the history',
 'The root of a transaction or database is the documented Merkle hash of its key-value map: the empty map hashes to 32 zero bytes, leaves, branches and path-compressed branches hash with their own tag bytes and encodings. Two histories that lead to the same map therefore have the same root, and different maps have different roots.',
 ['inputs', 'histories'], 'all maps, all operation orders that lead to them, all prefix lengths',
 'The tests compare roots only for a few shapes and never against an independent encoding, so an encoding that is consistently wrong, or depends on history, passes.',
 [T, N, U, B], m(('node hashing', N + ': urkel_node_hash'), ('tags', U + ': urkel_hash_internal, urkel_hash_leaf'), ('canonical shape', T + ': urkel_tree_insert, urkel_tree_remove')), observe=['urkel_root', 'urkel_tx_root'])
prop('C04', 'Every honest proof has the documented bytes and verifies',
 'For every map and every key, proving succeeds and yields the documented byte encoding of the key\'s path (dead end, short, collision or exists). Verifying that proof against the map\'s root succeeds and reports exactly whether the key is present and its value.',
 ['inputs', 'histories'], 'all maps, all present and absent keys, working/committed/reopened trees, any depth',
 'Tests prove keys of one random tree; short and collision proofs with long or byte-straddling prefixes are not reached, and the bytes are not compared with any reference.',
 [P, T, B], m(('proof construction', T + ': urkel_tree_prove'), ('encoding', P + ': urkel_proof_write, urkel_proof_size'), ('verification', P + ': urkel_proof_verify')), observe=['urkel_prove', 'urkel_tx_prove', 'urkel_verify'])
prop('C05', 'No proof verifies for a false statement',
 'If verification of any byte string against the root of a map succeeds for a key, then what it reports is true of that map: present with exactly the stored value, or absent. No altered, truncated, extended or invented proof can make it report anything else.',
 ['inputs'], 'all proof byte strings, all keys, all roots of maps',
 'The tests corrupt a few bytes of one proof; soundness is a statement about all byte strings an adversary may send.',
 [P, B], m(('sanity rules', P + ': urkel_proof_is_sane'), ('path recomputation', P + ': urkel_proof_verify'), ('parsing', P + ': urkel_proof_read')), observe=['urkel_verify'])
prop('C06', 'The verifier is total on hostile input',
 'Verification of any byte string with any root and key terminates without reading or writing out of bounds, aborting or leaking, and returns success or one of the documented proof errors. On failure it reports no presence, a zeroed size and no stale value; a proof with missing or trailing bytes is invalid.',
 ['inputs'], 'all byte strings of any length, all roots and keys',
 'Tests only verify well-formed proofs, so hardly any parse error branch runs.',
 [P, B], m(('bounds-checked parser', P + ': urkel_proof_read'), ('cleanup', T + ': urkel_verify')), observe=['urkel_verify'])
prop('C08', 'Iteration yields every pair exactly once in key order',
 'An iterator over a transaction or root yields each key of its map exactly once, in ascending byte order, with its value and size, then reports the end of iteration on every later call. This holds for trees of every shape and depth (up to 256 levels), committed or not; an iterator abandoned at any point can be destroyed safely.',
 ['inputs', 'histories'], 'all maps and tree shapes, all states (working, committed, reopened, snapshot), all stopping points',
 'The tests iterate one random tree about a dozen levels deep and only count entries.',
 [T], m(('explicit stack', T + ': urkel_iter_seek, urkel_iter_push')), observe=['urkel_iter_next', 'urkel_iterate', 'urkel_iter_create'])
prop('C09', 'A committed state survives close and reopen',
 'After a commit returns success and the database is closed and opened again, the root equals the committed root, and every key, value, proof, iteration and earlier root reads back exactly as before. Uncommitted changes are absent after a reopen.',
 ['histories', 'inputs'], 'all histories with commits and reopens at every point, all key/value shapes',
 'The tests reopen a couple of times after one kind of history.',
 [S, N, T], m(('serialisation', N + ': urkel_node_write, urkel_node_read'), ('commit', S + ': urkel_store_commit, urkel_store_flush'), ('recovery', S + ': urkel_store_recover_state')), observe=['urkel_open', 'urkel_commit', 'urkel_get'])
prop('C10', 'A crash at any point leaves the last or the current commit',
 'If the process dies at any file-system call, including in the middle of a write, the database opens again and its state is exactly that of the last commit that returned success or of the one in flight, never anything else; all earlier roots remain readable. The reopened database accepts further commits normally, including when recovery is itself interrupted.',
 ['crash_points', 'histories'], 'every mutating system call of open, commit and recovery, every torn-write length, every history before it, repeated crashes',
 'The only crash test truncates one file once at one offset.',
 [S, IO], m(('checksummed meta records', S + ': urkel_meta_read, urkel_meta_write'), ('backward scan', S + ': urkel_store_find_meta, urkel_store_recover_state')), observe=['urkel_open', 'urkel_tx_commit'])
prop('C11', 'Values of 0 to 1023 bytes round-trip; larger ones are refused',
 'Every value of 0 to 1023 bytes, whatever its bytes, reads back with exactly its size and content from a transaction, the database, an iterator and a proof, before and after a commit and a reopen. A larger value is refused as invalid with no effect.',
 ['inputs'], 'all sizes, all contents, both sides of the limit',
 'One test checks one maximum-size value; sizes around the internal encoding boundaries are not covered.',
 [T, N, P], m(('size limit', T + ': urkel_tx_insert'), ('size fields', N + ': urkel_node_save, urkel_node_write, urkel_node_read')), observe=['urkel_tx_insert', 'urkel_get', 'urkel_iter_next', 'urkel_verify'])
prop('C12', 'A failed write or system call loses nothing that was committed',
 'If a system call fails during a commit, the commit reports failure; the transaction and database handle stay usable, every committed root stays readable with its data, and a later commit that reports success is complete and durable. If a system call fails while opening, the open fails cleanly or succeeds with the committed state, and never destroys committed data.',
 ['fault_sequences', 'histories'], 'every fallible system call, any point in open/commit/read/close, repeated faults, partial writes',
 'No test injects a failure of any system call.',
 [S, IO, T], m(('write and flush', S + ': urkel_store_flush, urkel_store_write'), ('append file', IO + ': urkel_file_write'), ('commit', T + ': urkel_tree_commit')), observe=['urkel_tx_commit', 'urkel_open', 'urkel_get'])
prop('C13', 'Damaged files are refused or rolled back, never fatal',
 'Whatever bytes the data files contain, opening and reading the database never aborts, reads out of bounds or hangs: it fails with an error or answers. A damaged tail after the last valid commit record is discarded, and a commit record altered in any bit is not accepted as a commit.',
 ['inputs', 'fault_sequences'], 'all alterations of the data file: any byte, any truncation, any appended bytes',
 'The tests corrupt one record once in one way.',
 [S, N, B], m(('record checksum', S + ': urkel_meta_read'), ('record parsing', N + ': urkel_node_read, ' + B + ': urkel_bits_read')), observe=['urkel_open', 'urkel_get', 'urkel_iterate'])
prop('C14', 'Concurrent use of one handle is safe and linearizable',
 'Any number of threads may use one database handle and shared transactions at once: there is no data race, no deadlock, no crash, and every read of a root sees exactly that root\'s map while other threads commit. Results equal those of some order of the calls; inserting or removing through the database handle is one such call. An open iterator makes the other threads\' changes wait until it is destroyed.',
 ['schedules'], 'all interleavings of two to three threads of readers, provers, writers and committers',
 'All tests are single-threaded.',
 [T, S, IO], m(('read-write locks', T + ': lock and tx->lock'), ('store locks', S + ': file and cache locks')), observe=['all urkel_* functions'])
prop('C15', 'A database is open in at most one process at a time',
 'While one process has a database open, opening or destroying it from another process fails and changes nothing in it; after the first process closes it or dies, the other can open it and sees the last commit.',
 ['schedules', 'crash_points', 'configurations'], 'all interleavings of open/close/destroy of two processes, and death of the holder at any point',
 'No test uses two processes.',
 [S, IO], m(('lock file', S + ': urkel_store_init_lock'), ('advisory lock', IO + ': urkel_fs_flock')), observe=['urkel_open', 'urkel_destroy', 'urkel_close'])
prop('C16', 'Data larger than one file spans files transparently',
 'When a commit does not fit the current data file, a new file is started and everything in earlier files stays readable; roots, proofs, iteration, reopening and recovery behave as if there were a single file. After a commit at most a fixed number of data files is left open, however many exist, and no file exceeds the limit.',
 ['histories', 'configurations'], 'all positions of the file boundary relative to nodes, values and commit records; any number of files',
 'The boundary is at 2 GB, far beyond what the tests write.',
 [S], m(('roll-over', S + ': urkel_store_write, urkel_store_write_meta, urkel_store_needs_flush'), ('file cache', S + ': urkel_store_open_file, urkel_store_evict'), ('cross-file history', S + ': urkel_store_read_history')), observe=['urkel_tx_commit', 'urkel_get', 'urkel_open'], hook='the file size limit (2 GB) must be reduced to be reachable')
prop('C17', 'The hash is BLAKE2b-256 on every input and chunking',
 'The hash exported by the library equals BLAKE2b with a 32-byte digest as in RFC 7693 for every message and every way of splitting it into updates; keyed use equals keyed BLAKE2b. Node and value hashes are that function of the documented preimages.',
 ['inputs'], 'all message contents; all lengths around block boundaries; all update splits; all key lengths',
 'The tests hash only what the tree hashes and compare with no reference.',
 [H, U], m(('compression', H + ': urkel_blake2b_compress'), ('buffering', H + ': urkel_blake2b_update, urkel_blake2b_final')), observe=['urkel_hash'])
prop('C18', 'Only the database\'s own files are touched',
 'A relative, absolute or redundant spelling of a path names the same database (the empty path names the working directory, and the working directory at the time of opening counts), and over-long paths are refused without side effects. Destroying a database removes only the files this library created in that directory, and the directory itself only when it is then empty.',
 ['inputs', 'configurations'], 'all path strings up to and around the length limit, all directory contents',
 'The tests use one path.',
 [S, IO], m(('normalisation', IO + ': urkel_path_normalize, urkel_path_resolve'), ('destroy', S + ': urkel_store_destroy')), observe=['urkel_open', 'urkel_destroy'])
prop('C19', 'Short and interrupted I/O is invisible',
 'When reads and writes transfer fewer bytes than asked or are interrupted by signals, every operation behaves exactly as with full transfers: same results, same bytes on disk, same errors.',
 ['fault_sequences', 'inputs'], 'every read or write of every operation, every short count, EINTR at every call',
 'The kernel never returns short counts on regular files in the test environment.',
 [IO], m(('retry loops', IO + ': urkel_fs_read, urkel_fs_write, urkel_fs_pread, urkel_fs_pwrite')), observe=['urkel_open', 'urkel_tx_commit', 'urkel_get'])
prop('C20', 'Inject and clear move to exactly the requested state',
 'Injecting a committed root into a transaction or a database makes it read, prove and iterate as that root; clearing a transaction returns it to the root it is based on and drops every pending change; destroying a transaction leaves no trace of it. Commits made from an injected state build on that state, and later commits or reopens follow it.',
 ['histories'], 'all sequences of insert, remove, commit, inject, clear, new transaction, reopen',
 'One test injects one root once.',
 [T, S], m(('inject', T + ': urkel_inject, urkel_tx_inject'), ('clear', T + ': urkel_tx_clear')), observe=['urkel_inject', 'urkel_tx_inject', 'urkel_tx_clear'])
prop('C21', 'The command-line tool does exactly what it is told',
 'For every argument list the tool performs exactly the requested command on the requested database with the decoded hex arguments, prints the documented result and exits 0 only on success. Malformed or over-long hex, missing arguments, unknown options or commands and more than 32 positional arguments are refused with exit status 1 and a message, without touching the database or reading out of bounds.',
 ['inputs'], 'all argument strings up to the stated lengths',
 'The command-line tool has no tests at all.',
 [C], m(('hex codec', C + ': urkel_base16_decode, urkel_base16_encode'), ('option parser', C + ': urkel_options_init'), ('commands', C + ': urkel_main')), observe=['process exit status', 'standard output', 'database contents'])
prop('C22', 'Every failure is reported with the right code and clean outputs',
 'Each call that fails returns 0 or NULL, sets the error code documented for that cause (not found, invalid, bad open, bad write, corruption, end of iteration) and zeroes the outputs it has for a result (the size of a get or a verification, the pointer and size of a proof); a call that succeeds returns 1. A failed call has no effect on the map.',
 ['inputs', 'fault_sequences', 'histories'], 'all calls in all states, all causes of failure',
 'Tests check return values of expected successes and almost no error codes.',
 [T, S, P], m(('error reporting', 'src/internal.c'), ('API wrappers', T)), observe=['urkel_errno', 'return values and out-parameters'])
prop('C23', 'No memory, descriptor or mapping is leaked or misused',
 'Over any sequence of calls, every allocation, file descriptor and mapping is released once its handle is destroyed, nothing is used after release or before initialisation, and no access leaves its object. This includes failed calls, abandoned iterators and transactions and failed opens.',
 ['histories', 'fault_sequences', 'inputs'], 'all call sequences, all failures inside them',
 'The valgrind run covers only the paths the one test program takes.',
 [T, S, N, IO], m(('node ownership', N + ': urkel_node_destroy'), ('store teardown', S + ': urkel_store_clear')), observe=['heap, descriptor and mapping tables'])
prop('C25', 'The on-disk, proof and hash formats are exactly the documented ones',
 'The bytes of the data file (leaf, internal and commit records, their pointers, sizes, padding and checksum), of proofs and of roots are exactly those of the published format, so files, proofs and roots interoperate with other implementations. A database written by an earlier version opens with the same contents.',
 ['inputs', 'histories'], 'all trees, keys, values and commit sequences',
 'Writer and reader are only tested against each other; a change to both goes unnoticed.',
 [N, S, P, B, U], m(('node records', N + ': urkel_node_write'), ('commit records', S + ': urkel_meta_write'), ('pointers', N + ': urkel_pointer_write'), ('bit strings', B + ': urkel_bits_write')), observe=['data file bytes', 'proof bytes', 'root'])

NA = {}
LEVEL = 'model_checking'
TECH = 'symbolic execution of the LLVM IR of the real sources with a SAT/SMT decision for every branch and assertion (bounded); counterexamples replayed on native sanitizer builds'
checks = []; na = []
for p in L:
    i = p['id']
    if i in props.PROPS:
        b = props.PROPS[i]['bounds']
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': LEVEL, 'level_note': 'Exhaustive within: ' + b + '. Outside: ' + props.PROPS[i].get('outside', '')})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'sh engine/setup.sh', 'checks': checks, 'not_applicable': na, **({'hooks': props.HOOKS} if getattr(props, 'HOOKS', None) else {}),
  'notes': 'usym (engine/) is a symbolic executor for LLVM IR written for this task; model/ is the operating system it runs the code against.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in L))
for p in L: assert len(p['title']) <= 80, p['title']
print(len(L), 'properties,', len(checks), 'checks')

# ---------------------------------------------------------------- DESIGN.md
from howto import HOW, NOTES
o = ['<!-- generated by tools/mkdocs.py from props.py, tools/howto.py, known-findings.json and seeded/ -->', '', '## The properties', '',
     'Technique for all: ' + TECH + '. "Configurations" are quick + additional thorough ones. The timings are in evidence/*.json (8 cores: 5-60 s quick).', '']
for p in L:
    i = p['id']; q = props.PROPS[i]; cs = q['configs']; t = [c for c in cs if c.get('thorough')]
    o += ['### %s %s' % (i, p['title']), '', HOW[i], '', '* Harnesses: ' + ', '.join('`%s`' % h for h in sorted({c['h'] for c in cs})) + '; %d + %d configurations; hash: %s.' % (len(cs) - len(t), len(t), ', '.join(sorted({c.get('hash', 'ideal') for c in cs}))),
          '* Within: ' + q['bounds'] + '.', '* Outside: ' + q.get('outside', '-') + '.'] + ['* Assumes: ' + x + '.' for x in q.get('assume', [])] + ['']
o += [NOTES.strip(), '', '## Defects found in the pinned commit', '', 'All were demonstrated by replaying the solver\'s counterexample against the real objects and repaired in separate `fix:` commits.', '', '| | property | commit | what failed |', '|---|---|---|---|']
kf = json.load(open(V + '/known-findings.json')) if open(V + '/known-findings.json').read(1) in '[{' else []
try: kf = kf['findings'] if isinstance(kf, dict) else kf
except KeyError: pass
for f in kf: o.append('| %s | %s | %s | %s |' % (f['id'], f['property'], f['commit'], f['what'].split(f['commit'] + ' ', 1)[-1]))
o += ['', '## Planted bugs', '', 'Written from the property text and the code, each compiles and passes the tests; every one is reported by the check of its property (`tools/seeded.sh`).', '', '| bug | property | needs | breaks | reported by |', '|---|---|---|---|---|']
res = {}
if os.path.exists(V + '/tools/seeded.txt'):
    for l in open(V + '/tools/seeded.txt'):
        w = l.split(None, 3)
        if len(w) > 2: res[w[0]] = w[1] if w[2] == 'rc=1' else 'missed'
for d in sorted(os.listdir(V + '/seeded')):
    j = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    o.append('| %s | %s | %s | %s | %s |' % (d, j['property'], j['needs'], j['what_it_breaks'], res.get(d, '')))
D = V + '/DESIGN.md'; s = open(D).read().split('<!-- generated')[0].rstrip() + '\n\n'
open(D, 'w').write(s + '\n'.join(o) + '\n')
