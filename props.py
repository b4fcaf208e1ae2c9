"""What each property's check decides: harness, parameters (bounds) and expected vacuity witnesses."""
ASSUME = [
  'the operating system behaves as model/posix.c says (POSIX semantics of files, record locks, mappings and rwlocks)',
  'clang 18 compiles the C sources to the IR that is executed, with -O0 plus mem2reg/instsimplify/simplifycfg (so no optimisation exploits undefined behaviour before the engine sees it)',
  'where a configuration says hash=ideal, BLAKE2b-256 is replaced by a collision-free function of the whole message; C17 decides the real one against RFC 7693',
]
def C(name, h, reach='', P=None, **kw):
    d = {'name': name, 'h': h, 'P': P or {}, 'reach': [x for x in reach.split(',') if x]}; d.update(kw); return d
T = dict(thorough=True)
PROPS = {}
def SMALL(size=260, files=2, wbuf=100, rbuf=120, *more):
    d = ['-DURKEL_VERIF', '-DURKEL_VERIF_FILE_SIZE=%d' % size, '-DURKEL_VERIF_OPEN_FILES=%d' % files, '-DURKEL_VERIF_WRITE_BUFFER=%d' % wbuf, '-DURKEL_VERIF_READ_BUFFER=%d' % rbuf] + list(more)
    return dict(libdefs=d, hdefs=d)

# ---------------------------------------------------------------- C01 map semantics
MR = 'insert,remove absent,remove present'
PROPS['C01'] = dict(
  bounds='every sequence of up to 3 operations (insert one of two values, remove, commit, commit+reopen) over 2-3 keys whose branch bits are symbolic at bit positions {0,1,7,8,126..128,254,255} (quick: windows of 3-9 bits; thorough: 4 operations); has/get compared with a reference map after the last (EACH=1: every) operation, again after commit, and again after reopening',
  outside='more than 3 keys or 4 operations at once; values other than the two sizes per configuration (C11 varies sizes)',
  configs=[C('map2-bytes', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=4, OPS=3)),
           C('map2-ends', 'map.c', MR, dict(NK=2, KEYS=6, OPS=3, COMMITS=0, EACH=1)),
           C('map2-mid', 'map.c', MR, dict(NK=2, KEYS=5, OPS=3, EACH=1)),
           C('map3', 'map.c', MR, dict(NK=3, KEYS=4, OPS=2, EACH=1), w=3),
           C('map3-top', 'map.c', MR, dict(NK=3, KEYS=2, OPS=3, COMMITS=0), w=9),
           C('map2-wide', 'map.c', MR, dict(NK=2, KEYS=1, OPS=2), w=5),
           C('map2-big', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=8, OPS=2, L0=1023, L1=256)),
           C('map2-empty', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=7, OPS=3, L0=0, L1=255)),
           C('map1-values', 'map.c', MR, dict(NK=1, KEYS=9, OPS=2, VALS=1, VHI=4, EACH=1)), C('map1-values3', 'map.c', MR, dict(NK=1, KEYS=9, OPS=3, VALS=1, VHI=2, COMMITS=0)),
           C('map1-values-long', 'map.c', MR, dict(NK=1, KEYS=9, OPS=3, VALS=1, VLO=300, VHI=300), w=2), C('map2-values', 'map.c', MR, dict(NK=2, KEYS=7, OPS=2, VALS=1, VHI=2), w=2),
           C('map3-deep', 'map.c', MR, dict(NK=3, KEYS=2, OPS=4), t=120, **T),
           C('map2-deep', 'map.c', MR, dict(NK=2, KEYS=7, OPS=5), t=120, **T),
           C('map3-wide', 'map.c', MR, dict(NK=3, KEYS=1, OPS=3), t=120, **T),
           C('map2-full', 'map.c', MR, dict(NK=2, KEYS=0, OPS=2), t=120, **T),
           C('api', 'api.c', 'insert,remove,too large,dropped,empty commit,present,absent,proved,iterated,recreated', dict(PRE=1, OPS=2), w=4)])

# ---------------------------------------------------------------- C02 snapshots
LR = 'read,inject,tx inject'
HR = 'insert,remove,commit,reopen,clear,new tx,tx inject,inject,snapshot'
PROPS['C02'] = dict(
  bounds='a history of 2-3 commits followed by every sequence of up to 2 (thorough: 3) operations out of insert, remove, commit, reopen, tx clear, new tx, inject of any earlier root into the database or the transaction, snapshot on any earlier root; then every earlier root is read back in full, before and after a reopen; an unknown root is any single-bit change (24 positions; thorough 256) of any known root; histories of 40-300 (thorough: 1000) commits, with any one of their roots (a symbolic index) read, snapshot, proved, iterated, injected and committed upon',
  outside='more than 2-3 keys; unknown roots that differ from every known root in more than one bit',
  configs=[C('hist2', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=7)),
           C('hist2-mid', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=9, PRE=3)),
           C('hist-unknown', 'hist.c', 'unknown root', dict(NK=2, OPS=1, UNK=1, KEYS=7), w=5),
           C('hist3', 'hist.c', 'snapshot', dict(NK=3, OPS=2, UNK=0, KEYS=9, PRE=3), w=3),
           C('long', 'long.c', LR, dict(N=100), insts=4 * 10**9), C('long-warm', 'long.c', LR, dict(N=140, COLD=0, FRESH=1), insts=4 * 10**9), C('long-all', 'long.c', LR, dict(N=40, ALL=1, NK=2), insts=4 * 10**9), C('long300', 'long.c', LR, dict(N=300, JLO=0, JHI=9), insts=4 * 10**9),
           C('long300-all', 'long.c', LR, dict(N=300), insts=4 * 10**9, t=200, **T), C('long1000', 'long.c', LR, dict(N=1000, JLO=0, JHI=1), insts=4 * 10**9, t=200, **T),
           ] + [C('hist-deep%d' % i, 'hist.c', '', dict(NK=2, OPS=3, UNK=0, KEYS=7, OP0=i), **T) for i in range(19)]
             + [C('hist-unknown256', 'hist.c', 'unknown root', dict(NK=2, OPS=1, UNK=2, KEYS=9), t=100, **T)])

# ---------------------------------------------------------------- C03 root
PROPS['C03'] = dict(
  bounds='the root after every operation sequence of up to 3 (thorough 4-5) inserts/removes/commits/reopens over 2-3 symbolic keys (branch bits at positions up to 255, all-256-bit symbolic keys for pairs) equals an independently written encoding of the documented hash of the resulting map; trees of 64 and 256 levels for fixed keys',
  outside='more than 3 symbolic keys; symbolic positions outside each configuration\'s window for triples',
  configs=[C('root2-bytes', 'map.c', MR, dict(NK=2, KEYS=4, OPS=3)),
           C('root3-top', 'map.c', MR, dict(NK=3, KEYS=2, OPS=3, COMMITS=0), w=9),
           C('root3', 'map.c', MR, dict(NK=3, KEYS=6, OPS=2)),
           C('root2-wide', 'map.c', MR, dict(NK=2, KEYS=1, OPS=2), w=3),
           C('root2-full', 'map.c', MR, dict(NK=2, KEYS=0, OPS=2, COMMITS=0), w=9),
           C('root2-sizes', 'map.c', MR, dict(NK=2, KEYS=5, OPS=2, L0=0, L1=1023)),
           C('chain64', 'deep.c', 'proved', dict(N=64, OP=1), insts=4 * 10**9),
           C('chain256', 'deep.c', 'removed', dict(N=256, OP=2), insts=4 * 10**9, t=200, **T),
           C('root3-deep', 'map.c', MR, dict(NK=3, KEYS=2, OPS=4), t=120, **T),
           C('root3-wide', 'map.c', MR, dict(NK=3, KEYS=1, OPS=3), t=120, **T),
           C('root2-full-commit', 'map.c', MR, dict(NK=2, KEYS=0, OPS=2), t=60, **T)])

# ---------------------------------------------------------------- C04 proof completeness
PR = 'deadend,short,collision,exists'
PROPS['C04'] = dict(
  bounds='trees of 0-3 keys with symbolic branch bits (pairs: all 256 bits of every key and of the queried key symbolic), working, committed or reopened, queried with a symbolic key: the proof has exactly the bytes of an independently written encoder and verifies to the right answer and value; chains of 64-256 levels; value sizes 0..1023 at both ends',
  outside='four or more symbolic keys',
  configs=[C('pf0', 'proof.c', 'deadend', dict(NK=0, KEYS=4, QKEY=4)),
           C('pf1-full', 'proof.c', 'collision,exists', dict(NK=1, KEYS=4, QKEY=0)),
           C('pf2', 'proof.c', 'short,collision,exists', dict(NK=2, KEYS=4, QKEY=4)),
           C('pf2-commit', 'proof.c', 'short,collision,exists', dict(NK=2, KEYS=5, QKEY=5, STAGE=1)),
           C('pf2-reopen', 'proof.c', 'short,collision,exists', dict(NK=2, KEYS=6, QKEY=6, STAGE=2)),
           C('pf2-sizes', 'proof.c', 'exists', dict(NK=2, L0=1023, L1=256, KEYS=2, QKEY=2, STAGE=2)),
           C('pf2-sizes2', 'proof.c', 'exists', dict(NK=2, L0=0, L1=255, KEYS=2, QKEY=2)),
           C('pf2-full', 'proof.c', 'exists', dict(NK=2, KEYS=0, QSEL=1), w=5),
           C('pf3', 'proof.c', 'short,collision,exists', dict(NK=3, KEYS=4, QKEY=4)),
           C('pf3-reopen', 'proof.c', 'short,collision,exists', dict(NK=3, KEYS=5, QKEY=5, STAGE=2)),
           C('pf3-del', 'proof.c', 'collision,exists', dict(NK=3, KEYS=4, QKEY=4, DEL=1)),
           C('pf-chain84', 'deep.c', 'proved', dict(N=84, STEP=3, START=2, OP=1), insts=4 * 10**9, w=3),
           C('pf3-wide', 'proof.c', 'exists', dict(NK=3, KEYS=1, QKEY=1), t=60, **T),
           C('pf-chain256', 'deep.c', 'proved', dict(N=256, OP=1), insts=4 * 10**9, t=60, **T)]
           + [C('pf2-full-%s' % s, 'proof.c', 'short,collision,exists', dict(NK=2, KEYS=0, QKEY=0, QSEL=2, STAGE=i), t=100, **T) for i, s in enumerate(('tx', 'commit', 'reopen'))])

# ---------------------------------------------------------------- C05 proof soundness
PROPS['C05'] = dict(
  bounds='(a) honest proofs of 1-3 key trees with one region (type, depth, node count, bitmap, each node, trailer, value) replaced by fully symbolic bytes, or truncated/extended, or a symbolic root: whatever verifies states the truth about the tree; (b) arbitrary proofs of up to 112 fully symbolic bytes against the root of a known tree',
  outside='two regions changed at once beyond the sizes of (b); hash collisions (the hash is collision-free by assumption)',
  configs=[C('mut2', 'mutate.c', 'accepted,rejected,truncated,extended', dict(NK=2, KEYS=4)),
           C('mut1', 'mutate.c', 'accepted,rejected', dict(NK=1, KEYS=5)),
           C('mut2-top', 'mutate.c', 'accepted,rejected', dict(NK=2, KEYS=3), w=5),
           C('mut2-mid', 'mutate.c', 'accepted,rejected', dict(NK=2, KEYS=5), w=9),
           C('mut2-root', 'mutate.c', 'accepted,rejected', dict(NK=2, KEYS=4, ANYROOT=1, REGION=6)),
           C('any-short', 'verify.c', 'rejected', dict(LO=0, HI=12)),
           C('any-leaf', 'verify.c', 'rejected', dict(LO=36, HI=44, NK=1, CNT=1, DHI=12, PMAX=9)),
           C('any-short-type', 'verify.c', 'rejected', dict(LO=102, HI=112, CNT=1, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=2)),
           C('any-exists', 'verify.c', 'rejected', dict(LO=36, HI=50, CNT=1, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=3), w=4),
           C('mut3', 'mutate.c', 'accepted,rejected', dict(NK=3, KEYS=4), t=60, **T),
           C('mut2-wide', 'mutate.c', 'accepted,rejected', dict(NK=2, KEYS=1), t=60, **T),
           C('any-collision', 'verify.c', 'rejected', dict(LO=100, HI=104, CNT=1, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=1), t=60, **T),
           C('any-two', 'verify.c', 'rejected', dict(LO=68, HI=84, CNT=2, NK=3, KEYS=2, DHI=12, PMAX=9, TYPE=3), t=60, **T)])

# ---------------------------------------------------------------- C06 verifier robustness
PROPS['C06'] = dict(
  bounds='every byte string of length 0..12 and of selected lengths up to 112 with all bytes symbolic, every root and key; honest proofs of real trees with any one region symbolic, truncated or extended by symbolic bytes: no out-of-bounds access, no abort, no leak, outputs zeroed on failure, only documented codes',
  outside='fully symbolic proofs longer than 112 bytes',
  configs=[C('any0-12', 'verify.c', 'rejected', dict(LO=0, HI=12)),
           C('any13-40', 'verify.c', 'rejected', dict(LO=13, HI=40, CNT=0)),
           C('any-68', 'verify.c', 'rejected', dict(LO=68, HI=68, CNT=0)),
           C('any-36-44', 'verify.c', 'rejected', dict(LO=36, HI=44, NK=1, CNT=1, DHI=12, PMAX=9)),
           C('any-short-type', 'verify.c', 'rejected', dict(LO=102, HI=112, CNT=1, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=2)),
           C('any-exists', 'verify.c', 'rejected', dict(LO=36, HI=50, CNT=1, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=3), w=4),
           C('mut2', 'mutate.c', 'accepted,rejected,truncated,extended', dict(NK=2, KEYS=4)),
           C('mut2-mid', 'mutate.c', 'accepted,rejected', dict(NK=2, KEYS=5), w=9),
           C('mut3', 'mutate.c', 'accepted,rejected', dict(NK=3, KEYS=4), t=60, **T),
           C('mut2-wide', 'mutate.c', 'accepted,rejected', dict(NK=2, KEYS=1), t=60, **T)])

# ---------------------------------------------------------------- C08 iteration
PROPS['C08'] = dict(
  bounds='trees of 0-4 keys with symbolic branch bits, in five states (working, committed, reopened, partly committed, snapshot): iteration yields each pair once in ascending key order then ends with the documented code; iterators abandoned after any number of steps; chains of 64 and 256 levels (257 keys)',
  outside='five or more symbolic keys',
  configs=[C('it3', 'iter.c', 'yield,end', dict(NK=3, KEYS=4)),
           C('it3-commit', 'iter.c', 'yield,end', dict(NK=3, KEYS=4, STAGE=1)),
           C('it3-reopen', 'iter.c', 'yield,end', dict(NK=3, KEYS=5, STAGE=2)),
           C('it3-st3', 'iter.c', 'yield,end', dict(NK=3, KEYS=6, STAGE=3)),
           C('it3-st4', 'iter.c', 'yield,end', dict(NK=3, KEYS=4, STAGE=4)),
           C('it3-wide', 'iter.c', 'yield,end', dict(NK=3, KEYS=1), w=3),
           C('it4', 'iter.c', 'yield,end', dict(NK=4, KEYS=2), w=3),
           C('it3-stop', 'iter.c', 'abandoned', dict(NK=3, KEYS=4, STOP=1)),
           C('it3-sizes', 'iter.c', 'yield,end', dict(NK=3, KEYS=2, L0=1023, L1=0, STAGE=2)),
           C('it-noval', 'iter.c', 'yield,end', dict(NK=2, KEYS=4, NOVAL=1, STAGE=2)),
           C('it0', 'iter.c', 'end', dict(NK=0, KEYS=4)),
           C('chain256', 'deep.c', 'iterated', dict(N=256, OP=0), insts=4 * 10**9),
           C('chain256-rev', 'deep.c', 'iterated', dict(N=256, OP=0, REV=1, STAGE=2), insts=4 * 10**9),
           C('chain256-empty', 'deep.c', 'emptied', dict(N=256, OP=3), insts=4 * 10**9),
           C('it2-full', 'iter.c', 'yield,end', dict(NK=2, KEYS=0, STAGE=2), t=60, w=5),
           C('it4-wide', 'iter.c', 'yield,end', dict(NK=4, KEYS=1, STAGE=2), t=120, **T)])

# ---------------------------------------------------------------- C09 durability
PROPS['C09'] = dict(
  bounds='every sequence of up to 3 operations with commit and close+reopen at every position, over 2-3 keys with symbolic branch bits and two value sizes, and histories of 60-130 commits with a reopen after each or every eleventh; after the final commit and reopen the root, every value, every earlier root and fresh proofs equal the reference',
  outside='power loss (C10), failed writes (C12); more than one data file (C16)',
  configs=[C('map2', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=4, OPS=3)),
           C('map3', 'map.c', MR + ',commit,reopen', dict(NK=3, KEYS=6, OPS=2)),
           C('map2-big', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=8, OPS=2, L0=1023, L1=256)),
           C('map2-empty', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=7, OPS=3, L0=0, L1=255)),
           C('map2-full', 'map.c', 'insert,remove absent,commit,reopen', dict(NK=2, KEYS=0, OPS=1), w=4),
           C('hist2', 'hist.c', 'commit,reopen', dict(NK=2, OPS=2, UNK=0, KEYS=7)),
           C('long', 'long.c', LR, dict(N=60, REOPEN=1, ALL=1), insts=4 * 10**9), C('long-some', 'long.c', LR, dict(N=130, REOPEN=11, JLO=60, JHI=80), insts=4 * 10**9),
           C('proof-reopen', 'proof.c', 'exists', dict(NK=3, KEYS=4, QKEY=4, STAGE=2)),
           C('iter-reopen', 'iter.c', 'yield,end', dict(NK=3, KEYS=4, STAGE=2)),
           C('chain64', 'deep.c', 'removed', dict(N=64, OP=2, STAGE=2), insts=4 * 10**9),
           C('map3-deep', 'map.c', MR + ',commit,reopen', dict(NK=3, KEYS=2, OPS=4), t=120, **T),
           C('map2-deep', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=7, OPS=5), t=120, **T),
           C('map2-full2', 'map.c', MR, dict(NK=2, KEYS=0, OPS=2), t=60, **T)])

# ---------------------------------------------------------------- C11 value sizes
PROPS['C11'] = dict(
  bounds='every value size 0..1023 with every byte symbolic: stored, read back from the transaction, the database, the iterator and a proof, before and after commit and reopen; sizes 1024 and above (up to 2^63) refused with EINVAL and without effect',
  outside='more than two values of symbolic size at once',
  configs=[C('val%d' % lo, 'values.c', 'stored', dict(LO=lo, HI=lo + 127), w=3) for lo in range(0, 1024, 128)]
        + [C('val-refuse', 'values.c', 'refused', dict(BIG=1)),
           C('map-sizes', 'map.c', 'insert,commit,reopen', dict(NK=2, KEYS=2, OPS=2, L0=255, L1=256)),
           C('map-sizes2', 'map.c', 'insert,commit,reopen', dict(NK=2, KEYS=2, OPS=2, L0=0, L1=1023)),
           C('proof-sizes', 'proof.c', 'exists', dict(NK=2, L0=1023, L1=256, KEYS=2, QKEY=2, STAGE=2))])

# ---------------------------------------------------------------- C20 inject, clear
PROPS['C20'] = dict(
  bounds=PROPS['C02']['bounds'], outside=PROPS['C02']['outside'],
  configs=[C('hist2', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=7)),
           C('hist2-pre1', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=9, PRE=1)),
           C('hist2-pre3', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=9, PRE=3)),
           C('hist-unknown', 'hist.c', 'unknown root', dict(NK=2, OPS=1, UNK=1, KEYS=9), w=5),
           C('long', 'long.c', LR, dict(N=50, NK=4), insts=4 * 10**9), C('long-warm', 'long.c', LR, dict(N=80, COLD=0), insts=4 * 10**9),
           C('hist-inject3', 'hist.c', '', dict(NK=2, OPS=3, UNK=0, KEYS=9, OP0=13), w=5),
           C('hist-txinject3', 'hist.c', '', dict(NK=2, OPS=3, UNK=0, KEYS=9, OP0=10), w=5),
           ] + [C('hist-deep%d' % i, 'hist.c', '', dict(NK=2, OPS=3, UNK=0, KEYS=7, OP0=i), **T) for i in range(19)])

# ---------------------------------------------------------------- C10 crash
CR = 'crash,no crash,last commit'
FS = ['-DURKEL_FSYNC']
PROPS['C10'] = dict(
  bounds='a crash at every mutating system call (and inside every write, at every byte) of creating a database, of 1-2 commits of 1-3 operations on a database with 0-2 earlier commits, and again at every such call of the recovery (up to 3 crashes in a row); the reopened database is compared with the last or the in-flight commit in full (root, values, every earlier root), then takes another commit and reopens; with URKEL_FSYNC also a power loss that cuts or zeroes data not yet synced',
  outside='longer histories before the crash; crashes in commits that cross a data file boundary (C16 has those); power loss without URKEL_FSYNC',
  configs=[C('crash', 'crash.c', CR + ',current commit', {}),
           C('crash2', 'crash.c', CR + ',current commit', dict(PRE=1, STEPS=2)),
           C('crash-batch', 'crash.c', CR + ',current commit', dict(PRE=2, STEPS=2, NK=3, BATCH=2)),
           C('crash-create', 'crash.c', 'crash,no crash', dict(PRE=-1)),
           C('crash-recover', 'crash.c', CR + ',crash in recovery', dict(RE=2)),
           C('crash-create-recover', 'crash.c', 'crash,no crash,crash in recovery', dict(PRE=-1, RE=2)),
           C('crash-ops', 'crash.c', CR, dict(PRE=0, STEPS=2, OPSYM=1), w=4),
           C('crash-big', 'crash.c', CR, dict(PRE=2, STEPS=1, NK=3, BATCH=3, L0=1023), w=5),
           C('power', 'crash.c', CR, dict(LOSE=1), libdefs=FS, w=3),
           C('power-create', 'crash.c', 'crash,no crash', dict(LOSE=1, PRE=-1), libdefs=FS),
           C('power2', 'crash.c', CR, dict(LOSE=1, PRE=1, STEPS=2), libdefs=FS, w=4),
           C('crash-fault', 'crash.c', 'crash,failed commit,dropped', dict(FAULTS=1), w=4),
           C('crash-window', 'crash.c', CR, dict(PRE=2, NK=4, BATCH=4, L0=60, L1=70), **SMALL(5000)), C('crash-window1', 'crash.c', CR, dict(PRE=2, NK=4, BATCH=4, L0=61, L1=70, RE=2), w=2, **SMALL(5000, wbuf=10**6)),
           C('crash-fault2', 'crash.c', 'crash,failed commit', dict(FAULTS=1, STEPS=2), t=60, **T),
           C('crash-create3', 'crash.c', 'crash,crash in recovery', dict(PRE=-1, RE=3), t=120, **T),
           C('crash-recover-keys', 'crash.c', 'crash,crash in recovery', dict(RE=2, OPSYM=1, KEYS=4), t=120, **T),
           C('power-recover', 'crash.c', 'crash,crash in recovery', dict(LOSE=1, RE=2), libdefs=FS, **T),
           C('power-batch', 'crash.c', CR, dict(LOSE=1, PRE=2, STEPS=2, NK=3, BATCH=2), libdefs=FS, **T)])

# ---------------------------------------------------------------- C12 failed system calls
FR = 'failed open,failed commit'
NOMAP = ['-D__EMSCRIPTEN__', '-I' + __import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/model/inc']
FAULT = [C('fault', 'fault.c', FR + ',retried,dropped,reopened,another commits', {}),
         C('fault2', 'fault.c', FR, dict(STEPS=2)),
         C('fault-twice', 'fault.c', FR, dict(FAULTS=2), w=4),
         C('fault-batch', 'fault.c', FR, dict(PRE=2, NK=3, BATCH=3)),
         C('fault-create', 'fault.c', FR, dict(PRE=-1)),
         C('fault-create2', 'fault.c', FR, dict(PRE=-1, FAULTS=2, AFTER=0), w=2),
         C('fault-big', 'fault.c', FR, dict(PRE=1, L0=1000, L1=600, STEPS=3, AFTER=1)),
         C('fault-ops', 'fault.c', FR, dict(OPSYM=1), w=3),
         C('fault-nomap', 'fault.c', FR + ',failed operation,failed read', {}, libdefs=NOMAP),
         C('fault-nomap2', 'fault.c', FR + ',failed read', dict(STEPS=2, AFTER=2), libdefs=NOMAP),
         C('fault-nomap-batch', 'fault.c', FR + ',failed operation,failed read', dict(PRE=2, NK=3, BATCH=2), libdefs=NOMAP),
         C('fault-nomap-remove', 'fault.c', FR + ',failed operation,failed read', dict(PRE=3, NK=3), libdefs=NOMAP),
         C('fault-nomap-ops', 'fault.c', FR + ',failed operation', dict(PRE=2, NK=2, OPSYM=1, READS=0, AFTER=0), libdefs=NOMAP, w=4),
         C('fault-nomap-twice', 'fault.c', FR, dict(FAULTS=2), libdefs=NOMAP, w=4),
         C('fault-thrice', 'fault.c', FR, dict(FAULTS=3, AFTER=2), t=60, **T),
         C('fault-keys', 'fault.c', FR, dict(KEYS=7), t=60, **T),
         C('fault-nomap-twice2', 'fault.c', FR, dict(PRE=2, FAULTS=2, AFTER=0), libdefs=NOMAP, **T),
         C('fault-nomap-ops3', 'fault.c', FR, dict(PRE=3, NK=3, OPSYM=1, READS=0, AFTER=0), libdefs=NOMAP, **T),
         C('fault-nomap-ops-batch', 'fault.c', FR, dict(PRE=2, BATCH=3, NK=3, OPSYM=1, READS=0, AFTER=0), libdefs=NOMAP, t=120, **T)]
FAULTB = 'one or two (thorough: three) failing system calls out of open, read, write (whole or partial), ftruncate, fsync, mmap, munmap, close, stat, at every position in open, 1-3 commits of 1-3 operations, every read call, proofs, iteration and close of a database with 0-3 earlier commits; after a failed commit the transaction is retried, dropped, replaced by another one, or the database reopened'
PROPS['C12'] = dict(bounds=FAULTB, outside='failures that last (a call that keeps failing for ever); failing memory allocation (the library aborts by design)', configs=FAULT)

# ---------------------------------------------------------------- C15 one process at a time
PROPS['C15'] = dict(
  bounds='two processes that each open (or destroy), write, commit and close the database, with up to two preemptions at any system call, plus the death of the holder at any mutating system call (thorough: three processes, three preemptions); shared memory is not raced over: the processes share only files',
  outside='two handles inside one process (POSIX record locks do not exclude those); network file systems',
  assume=['fcntl record locks behave as POSIX says: per process, dropped when the process dies or closes any descriptor of the file'],
  configs=[C('open-open', 'excl.c', 'opened,second opened,open refused', {}, norace=True),
           C('create-create', 'excl.c', 'opened,open refused', dict(PRE=0), norace=True),
           C('open-destroy', 'excl.c', 'opened,destroyed,destroy refused', dict(MODE2=1), norace=True),
           C('create-destroy', 'excl.c', '', dict(MODE2=1, PRE=0), norace=True),
           C('destroy-destroy', 'excl.c', 'destroyed', dict(MODE1=1, MODE2=1), norace=True),
           C('open-open-twice', 'excl.c', 'opened,second opened', dict(ROUNDS=2), norace=True, w=3),
           C('die', 'excl.c', 'opened,died', dict(PREEMPT=1, DIE=1), norace=True, w=3),
           C('die-destroy', 'excl.c', 'destroyed,died', dict(MODE2=1, PREEMPT=1, DIE=1), norace=True, w=2),
           C('three', 'excl.c', '', dict(NP=3), norace=True, **T), C('preempt3', 'excl.c', '', dict(PREEMPT=3), norace=True, **T),
           C('die2', 'excl.c', '', dict(DIE=1), norace=True, t=120, **T), C('die2-destroy', 'excl.c', '', dict(MODE2=1, DIE=1), norace=True, **T)])

# ---------------------------------------------------------------- C22 error codes
PROPS['C22'] = dict(
  bounds='every call of the API on databases of 0-3 keys with symbolic key bits: absent keys, unknown roots (any known root with one bit changed), values of 1024..1100 bytes, null outputs, ended iterators, altered proofs (one region symbolic, truncations) and every byte string up to 12 bytes as a proof; ' + FAULTB,
  outside='causes outside those listed (e.g. several failures at once)',
  configs=[C('api', 'api.c', 'insert,remove,too large,dropped,empty commit,present,absent,proved,iterated,recreated', dict(PRE=1, OPS=2), w=4),
           C('api2', 'api.c', 'present,absent', dict(PRE=2, OPS=1), w=4),
           C('hist-unknown', 'hist.c', 'unknown root', dict(NK=2, OPS=1, UNK=1, KEYS=9), w=5),
           C('any0-12', 'verify.c', 'rejected', dict(LO=0, HI=12)),
           C('mut2', 'mutate.c', 'accepted,rejected,truncated,extended', dict(NK=2, KEYS=4)),
           C('val-refuse', 'values.c', 'refused', dict(BIG=1)),
           C('it3-st4', 'iter.c', 'yield,end', dict(NK=3, KEYS=4, STAGE=4)),
           C('open-destroy', 'excl.c', 'destroy refused', dict(MODE2=1), norace=True),
           C('api-3keys', 'api.c', 'present,absent', dict(PRE=3, OPS=1, NK=3, KEYS=4), t=120, **T),
           C('api-wide', 'api.c', 'present,absent', dict(PRE=2, OPS=2, KEYS=2), t=120, **T)] + [c for c in FAULT if c['name'] in ('fault', 'fault-nomap-batch', 'fault-nomap', 'fault-create', 'fault-batch', 'fault-nomap-remove', 'fault-keys', 'fault-nomap-ops3')])

# ---------------------------------------------------------------- C23 memory and resources
PROPS['C23'] = dict(
  bounds='in every path of the configurations below each access is checked against its object (bounds, lifetime, initialisation) and at the end no allocation, descriptor or mapping is left: map operations, histories with inject/clear/snapshots, proofs and iterators abandoned at every point, altered and arbitrary proofs, destroyed and recreated databases, crashes in recovery; ' + FAULTB,
  outside='accesses inside the C library and the kernel (replaced by models)',
  configs=[C('map2', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=4, OPS=3)),
           C('map3', 'map.c', MR, dict(NK=3, KEYS=6, OPS=2)),
           C('hist2', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=7)),
           C('hist-unknown', 'hist.c', 'unknown root', dict(NK=2, OPS=1, UNK=1, KEYS=9), w=5),
           C('api', 'api.c', 'insert,remove,too large,dropped,present,absent,proved,iterated,recreated', dict(PRE=1, OPS=2), w=4),
           C('it3-stop', 'iter.c', 'abandoned', dict(NK=3, KEYS=4, STOP=1)),
           C('pf3', 'proof.c', 'short,collision,exists', dict(NK=3, KEYS=4, QKEY=4)),
           C('mut2', 'mutate.c', 'accepted,rejected,truncated,extended', dict(NK=2, KEYS=4)),
           C('any13-40', 'verify.c', 'rejected', dict(LO=13, HI=40, CNT=0)),
           C('val', 'values.c', 'stored', dict(LO=224, HI=287)),
           C('crash-recover', 'crash.c', 'crash in recovery', dict(RE=2)),
           C('chain256', 'deep.c', 'iterated', dict(N=256, OP=0), insts=4 * 10**9),
           C('hist2-pre3', 'hist.c', HR, dict(NK=2, OPS=2, UNK=0, KEYS=9, PRE=3)),
           C('map3-deep', 'map.c', MR, dict(NK=3, KEYS=2, OPS=4), t=120, **T)] + [c for c in FAULT if c['name'] in ('fault', 'fault-create', 'fault-create2', 'fault-batch', 'fault-nomap', 'fault-nomap-batch', 'fault-nomap-remove', 'fault-thrice', 'fault-nomap-twice2')])

# ---------------------------------------------------------------- C16 several files
RR = 'rolled over,several files,more files than open'
PROPS['C16'] = dict(
  bounds='with the file limit reduced to 260-420 bytes, 2-3 (in histories of 110 and 700 commits: 32) open files, a write buffer of 100 bytes or unlimited and a recovery window of 3 records (URKEL_VERIF): 3-7 commits of 1-3 operations whose first value has every size 0..260, so that the file boundary falls at every offset of nodes, values, padding and commit records; after every commit the current map, and at the end (before and after reopening) every root, proofs and iteration are compared with the reference; crashes at every byte and failed system calls as in C10 and C12 on the same histories',
  outside='the real limit of 2 GB itself: the code under the reduced limit is the same code with other constants; more than 700 files',
  configs=[C('roll', 'roll.c', RR, dict(), **SMALL(wbuf=10**6)),
           C('roll-reopen', 'roll.c', RR, dict(STEPS=6, REOPEN=99), w=2, **SMALL(wbuf=10**6)),
           C('roll-batch', 'roll.c', RR, dict(STEPS=3, BATCH=3, NK=3), w=2, **SMALL(wbuf=10**6)),
           C('roll-flush', 'roll.c', RR, dict(STEPS=7, EACH=2), w=2, **SMALL()),
           C('roll-flush-batch', 'roll.c', RR, dict(STEPS=3, BATCH=3, NK=3), w=2, **SMALL()),
           C('roll-big', 'roll.c', RR, dict(LO=200, HI=260, STEPS=4), **SMALL()),
           C('roll-keys', 'roll.c', RR, dict(STEPS=3, BATCH=2, KEYS=7, HI=60), w=2, **SMALL()),
           C('many-files', 'long.c', LR, dict(N=110, JLO=0, JHI=20), insts=4 * 10**9, w=2, libdefs=SMALL(260, 32)['libdefs'], hdefs=SMALL(260, 32)['hdefs'] + ['-DNINO=400', '-DNDENT=400']),
           C('many-files-3', 'long.c', LR, dict(N=700, JLO=340, JHI=341), insts=8 * 10**9, w=2, libdefs=SMALL(260, 32)['libdefs'], hdefs=SMALL(260, 32)['hdefs'] + ['-DNINO=1500', '-DNDENT=1500', '-DNFD=1500', '-DNMAP=1500']),
           C('many-files-2', 'long.c', LR, dict(N=40, REOPEN=7), insts=4 * 10**9, w=2, **SMALL(260, 3)),
           C('roll-420', 'roll.c', RR, dict(STEPS=7, BATCH=2, NK=3, HI=76), w=2, **SMALL(420, 3, 200, 76)),
           C('roll-crash', 'crash.c', CR, dict(L0=0, L0HI=37), w=4, **SMALL()),
           C('roll-crash-batch', 'crash.c', CR + ',crash in recovery', dict(PRE=1, BATCH=3, NK=3, RE=2), w=3, **SMALL()),
           C('roll-crash-fault', 'crash.c', CR + ',failed commit', dict(FAULTS=1), w=3, **SMALL()),
           C('roll-fault', 'fault.c', 'failed open,failed commit,failed read', dict(STEPS=2), **SMALL()),
           C('roll-fault-batch', 'fault.c', 'failed open,failed commit', dict(PRE=2, STEPS=1, BATCH=3, NK=3), **SMALL()),
           C('roll-fault-nobuf', 'fault.c', 'failed open,failed commit', dict(PRE=4, STEPS=1, NK=3, BATCH=2), **SMALL(wbuf=10**6)),
           C('roll-power', 'crash.c', CR, dict(LOSE=1), w=3, **SMALL(260, 2, 100, 120, '-DURKEL_FSYNC')),
           C('roll-ops', 'roll.c', RR, dict(STEPS=4, OPSYM=1, LO=30, HI=38), t=60, **SMALL(), **T),
           C('roll-keys3', 'roll.c', RR, dict(STEPS=2, BATCH=3, NK=3, KEYS=2, LO=20, HI=59), t=60, **SMALL(), **T),
           C('roll-crash-sweep', 'crash.c', CR, dict(L0=0, L0HI=40, PRE=2, NK=3, BATCH=3), t=60, **SMALL(), **T),
           C('roll-fault-sweep', 'fault.c', '', dict(L0=0, L0HI=38, PRE=2, NK=3, BATCH=3, AFTER=0), t=60, **SMALL(), **T),
           C('roll-fault-twice', 'fault.c', '', dict(FAULTS=2), t=60, **SMALL(), **T),
           C('roll-crash-fault-batch', 'crash.c', '', dict(FAULTS=1, PRE=2, NK=3, BATCH=3), t=60, **SMALL(), **T)])

# ---------------------------------------------------------------- C13 damaged files
PROPS['C13'] = dict(
  bounds='data files of 2-5 commits over 2-3 keys (prefixes of up to 254 bits), damaged by: any one byte (thorough: any 2-4 neighbouring bytes) replaced by any value, the file cut at every length, any 1-90 appended bytes, any record-sized block copied over another one or appended, any 7 bytes replaced by a genuine pointer, both damage and cut; also in the first, a middle or the last of several files and in the key file; then every read, proof, iteration, change and commit on the current and every earlier root. The path length is limited, so a loop is reported as a hang',
  outside='damage in two distant places at once; a forged record whose keyed checksum is guessed; an exact copy of a genuine earlier commit record appended at an aligned offset (accepted: the record format has no position); what is read from a record altered outside the commit records (node records carry no checksum)',
  configs=[C('byte%d' % i, 'corrupt.c', 'damaged,opened', dict(LO=a, HI=b), w=3) for i, (a, b) in enumerate(((0, 120), (121, 230), (231, 330), (331, 400), (401, 470), (471, 560), (561, 4000)))]
        + [C('cut', 'corrupt.c', 'damaged,rolled back', dict(MODE=1)), C('cut5', 'corrupt.c', 'damaged,rolled back', dict(MODE=1, PRE=5, NK=2)),
           C('append', 'corrupt.c', 'damaged,rolled back', dict(MODE=2), w=2), C('copy', 'corrupt.c', 'damaged,opened', dict(MODE=3)), C('copy5', 'corrupt.c', 'damaged,opened', dict(MODE=3, PRE=5, NK=2)),
           C('pointer', 'corrupt.c', 'damaged,opened', dict(MODE=5), w=3), C('pointer2', 'corrupt.c', 'damaged,opened', dict(MODE=5, PRE=2, SKIP=1)),
           C('record-end', 'corrupt.c', 'damaged,rolled back', dict(W=3, LO=560), w=2), C('batch', 'corrupt.c', 'damaged,opened', dict(PRE=4, SKIP=2), w=3),
           C('key', 'corrupt.c', 'damaged', dict(F=0)), C('key-cut', 'corrupt.c', 'damaged,refused', dict(F=0, MODE=1)),
           C('first-file', 'corrupt.c', 'damaged,several files', dict(F=1, PRE=4), w=2, **SMALL()), C('mid-file', 'corrupt.c', 'damaged,several files', dict(F=2, PRE=4), w=2, **SMALL()), C('last-file', 'corrupt.c', 'damaged,several files', dict(F=3, PRE=4), **SMALL()),
           C('first-cut', 'corrupt.c', 'damaged', dict(F=1, MODE=1, PRE=4), **SMALL()), C('mid-cut', 'corrupt.c', 'damaged', dict(F=2, MODE=1, PRE=4), **SMALL()), C('last-cut', 'corrupt.c', 'damaged', dict(F=3, MODE=1, PRE=4), **SMALL()), C('mid-copy', 'corrupt.c', 'damaged', dict(F=2, MODE=3, PRE=4), **SMALL())]
        + [C('two-bytes%d' % i, 'corrupt.c', 'damaged', dict(W=2, PRE=2, LO=i * 20, HI=i * 20 + 19), t=60, **T) for i in range(17)]
        + [C('four-bytes%d' % i, 'corrupt.c', 'damaged', dict(W=4, PRE=2, LO=i * 20, HI=i * 20 + 19), t=60, **T) for i in range(17)]
        + [C('byte-cut', 'corrupt.c', 'damaged', dict(MODE=4, PRE=2, NK=2), t=120, **T), C('append-long', 'corrupt.c', 'damaged', dict(MODE=2, LO=90, HI=160), t=100, **T), C('byte-4', 'corrupt.c', 'damaged', dict(PRE=5), t=120, **T)])

# ---------------------------------------------------------------- C14 threads
TR = 'all calls return,overlap'
PROPS['C14'] = dict(
  bounds='two threads that each make any one of 19 calls (reads, proofs, iteration, changes, commit, clear, inject of a shared transaction and of the database) with up to 2 preemptions, in 5 starting states (clean, changed, injected, empty, several data files); 10 scripts of 2-4 calls per thread with up to 3 preemptions; one script of 3 threads; thorough: any three calls in three threads, 3-4 preemptions, symbolic keys. Every result, the final roots and the reopened root must be those of some order of the calls that respects their real-time order; every access of the library is checked for data races by vector clocks, and a state where nobody can go on is a deadlock',
  outside='more than 3 threads; more preemptions; closing the handle while another thread uses it (not allowed); fairness; locks that prefer writers (glibc prefers readers)',
  assume=['preempting only at lock operations and at the system calls that name files is enough because data races are reported separately'],
  configs=[C('pairs%d' % i, 'conc.c', TR, dict(LO=a, HI=b), w=3) for i, (a, b) in enumerate(((0, 3), (4, 7), (8, 18)))]
        + [C('pairs-clean', 'conc.c', TR, dict(PREEMPT=1, DIRTY=0)), C('pairs-revert', 'conc.c', TR, dict(REVERT=1, PREEMPT=1)), C('pairs-empty', 'conc.c', TR, dict(PRE=0, DIRTY=0, REOPEN=0)),
           C('pairs-cached', 'conc.c', TR, dict(PREEMPT=1, PRE=1, REOPEN=0)),
           C('pairs-files0', 'conc.c', TR, dict(PREEMPT=1, PRE=4, HI=5), w=2, **SMALL()), C('pairs-files1', 'conc.c', TR, dict(PREEMPT=1, PRE=4, LO=6), w=2, **SMALL()),
           C('tx-tx', 'conc.c', TR, dict(PREEMPT=3, T1=23222119, T2=23222119), w=2), C('tx-shared', 'conc.c', TR, dict(PREEMPT=3, T1=23222119, T2=260106), w=2),
           C('commit-iter', 'conc.c', TR, dict(PREEMPT=3, T1=60206, T2=1006)), C('commit-root', 'conc.c', TR, dict(PREEMPT=3, T1=602, T2=412)),
           C('snapshot', 'conc.c', TR, dict(PREEMPT=3, T1=23242220, T2=1306)), C('inject-history', 'conc.c', TR, dict(PREEMPT=3, T1=60308, T2=1107)),
           C('snap-iter', 'conc.c', TR, dict(PREEMPT=2, T1=23252420, T2=131413)), C('prove-write', 'conc.c', TR, dict(PREEMPT=3, T1=50205, T2=60301)),
           C('files-tx', 'conc.c', TR, dict(PREEMPT=2, PRE=4, T1=23222119, T2=161011), w=2, **SMALL()),
           C('three', 'conc.c', TR, dict(NP=3, PREEMPT=2, T1=602, T2=412, T3=10), w=2),
           C('keys', 'conc.c', TR, dict(PREEMPT=1, KEYS=7, T1=602, LO2=4, HI2=10), w=3)]
        + [C('triples%d' % i, 'conc.c', TR, dict(NP=3, PREEMPT=1, LO=i, HI=i), t=60, **T) for i in range(19)]
        + [C('pairs-4-%d' % i, 'conc.c', TR, dict(PREEMPT=4, LO=i, HI=i), t=60, **T) for i in range(19)]
        + [C('pairs-files-%d' % i, 'conc.c', TR, dict(PREEMPT=2, PRE=4, LO=i, HI=i), t=60, **SMALL(), **T) for i in range(19)]
        + [C('pairs-revert3', 'conc.c', TR, dict(REVERT=1, PREEMPT=3), t=100, **T), C('pairs-clean3', 'conc.c', TR, dict(DIRTY=0, PREEMPT=3), t=100, **T)])

# ---------------------------------------------------------------- C17 the hash
def B(name, P, **kw): return C(name, 'blake.c', 'hashed', P, hash='real', **kw)
PROPS['C17'] = dict(
  bounds='BLAKE2b of every message (all bytes symbolic) of 0-520 bytes: 0-64, 124-133, 255-257, 384, 510-514 (thorough: every length to 400), in one piece and split at every position, in two pieces at every pair of positions around the block boundaries, with every digest length 1-64 and every key length 0-64, and the byte counter at any value; compared with an independent transcription of RFC 7693, itself compared with the digests the RFC gives. Roots of trees with 1-2 keys, values of 0-1023 bytes and every length of the shared prefix, with the real hash',
  outside='messages beyond 520 bytes, more than three pieces',
  assume=['the reference hash is written with all nine ways to associate the two three-term sums of a round, so that equality is a matter of rewriting; code that computes the sums in yet another way is compared by the SAT solver within its budget'],
  configs=[B('short', dict(HI=32), w=2), B('half', dict(LO=33, HI=64, SPLITS=0)), B('block', dict(LO=124, HI=133), w=6), B('block-splits', dict(LO=127, HI=130, SPLITS=2, SLO=124), w=2), B('two-blocks', dict(LO=255, HI=257), w=7),
           B('two-splits', dict(LO=255, HI=258, SPLITS=2, SLO=126, SHI=131)), B('two-splits-end', dict(LO=256, HI=258, SPLITS=2, SLO=252)), B('three-blocks', dict(LO=384, HI=384), w=8), B('four-blocks', dict(LO=510, HI=514, SPLITS=0)), B('oneshot', dict(MODE=1, HI=48)), B('oneshot-block', dict(MODE=1, LO=125, HI=132)), B('oneshot-long', dict(MODE=1, LO=1020, HI=1024)),
           B('digest-length', dict(NN=1, NNHI=64, LO=65, HI=65, SPLITS=0)), B('key-length', dict(KK=1, KKHI=64, LO=5, HI=5, SPLITS=0), w=3), B('keyed', dict(NN=20, KK=32, LO=0, HI=24)), B('keyed-block', dict(NN=20, KK=32, LO=126, HI=130), w=3), B('keyed64', dict(NN=64, KK=64, LO=127, HI=129)),
           B('tree', dict(MODE=2, HI=1023)), B('tree2', dict(MODE=2, NK=2, SHI=255)), B('counter', dict(MODE=3), hdefs=['-DCOUNTER'], optional=True), B('counter-long', dict(MODE=3, LO=400), hdefs=['-DCOUNTER'], optional=True)]
        + [B('all-%d' % i, dict(LO=i * 10, HI=i * 10 + 9), t=60, **T) for i in range(40)]
        + [B('splits-%d' % i, dict(LO=250 + i, HI=250 + i, SPLITS=2, SLO=100), t=60, **T) for i in range(12)])

# ---------------------------------------------------------------- C18 paths
PR = 'same database,new database,refused,destroyed,not destroyed'
PROPS['C18'] = dict(
  bounds='every path of up to 5 (thorough 7-8) arbitrary bytes, alone and after each of 7 prefixes (absolute, "../", "//", "./", ...), from 3 working directories (one of them the root): open, commit from another working directory, reopen by the canonical path, destroy; every path length from 1000 to 1030 bytes (absolute, relative, padded with thousands of redundant separators) and from 1 to 60; a directory with 1-2 foreign files or directories with any names of 1-12 bytes',
  outside='symbolic links (resolved lexically: "a/../b" is "b"), Windows paths, paths with a NUL byte, working directories that were removed',
  configs=[C('spell-%d-%d' % (c, p), 'path.c', 'same database,destroyed', dict(CWD=c, PFX=p, HI=5 if p in (0, 3) else 4)) for c, p in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (1, 0), (1, 2), (1, 6), (2, 0), (2, 2))]
        + [C('spell-root', 'path.c', PR, dict(CWD=1, HI=5)), C('spell-up', 'path.c', 'new database', dict(CWD=2, PFX=6, HI=5)), C('spell-up5', 'path.c', 'same database', dict(CWD=2, LO=6, HI=6)), C('destroy-other', 'path.c', 'same database,not destroyed', dict(HI=4, DESTROY=1)), C('destroy-rel', 'path.c', 'same database,not destroyed', dict(CWD=2, PFX=2, HI=3, DESTROY=1)), C('destroy-root', 'path.c', 'same database,not destroyed', dict(CWD=1, HI=4, DESTROY=1)),
           C('length', 'path.c', 'accepted,refused', dict(MODE=1)), C('length-rel', 'path.c', 'accepted,refused', dict(MODE=1, REL=1)), C('length-pad', 'path.c', '', dict(MODE=1, PAD=3000, LO=1010, HI=1026)), C('length-pad-rel', 'path.c', '', dict(MODE=1, PAD=3000, REL=1, LO=1010, HI=1026)),
           C('foreign', 'path.c', 'foreign,number,kept', dict(MODE=2), w=2), C('foreign-dir', 'path.c', 'foreign,number,kept', dict(MODE=2, DIR=1), w=2), C('foreign2', 'path.c', 'foreign,kept', dict(MODE=2, NF=2, HI=2)), C('foreign-digits', 'path.c', 'number,kept', dict(MODE=2, LO=9, DIGITS=8)), C('foreign-digits2', 'path.c', 'number,kept', dict(MODE=2, NF=2, DIGITS=9, LO=10, HI=11, DIR=1)),
           C('spell-long', 'path.c', PR, dict(LO=7, HI=8), t=120, **T), C('spell-long-up', 'path.c', PR, dict(CWD=2, LO=7, HI=8), t=120, **T), C('foreign3', 'path.c', 'foreign,kept', dict(MODE=2, NF=2, HI=4), t=100, **T)]
        + [C('spell-t-%d-%d' % (c, p), 'path.c', 'destroyed', dict(CWD=c, PFX=p, LO=5, HI=6), t=60, **T) for c in range(3) for p in range(7)])

# ---------------------------------------------------------------- C19 short and interrupted I/O
SR = 'every interruption happened'
PROPS['C19'] = dict(
  bounds='a scenario of creating, 1-4 commits of 1-2 operations, reopening, reading, proving and iterating every root, once with full transfers and once with 1-2 (thorough: 3) reads, writes or opens, at any position, that are interrupted by a signal or transfer any smaller count; roots, data files, key file, proofs and answers are identical. Both with mappings and with the build variant that reads through pread (__EMSCRIPTEN__), and across data files',
  outside='more than three interruptions in one run; transfers above 2 GB; interrupted locks',
  configs=[C('short', 'shortio.c', SR, {}, w=2), C('short-nomap', 'shortio.c', SR, dict(MAXS=250), libdefs=NOMAP, w=3), C('short-nomap2', 'shortio.c', SR, dict(MAXS=250, REOPEN=0, NK=2, BATCH=1), libdefs=NOMAP),
           C('short-files', 'shortio.c', SR + ',several files', {}, **SMALL()), C('short-files4', 'shortio.c', SR + ',several files', dict(STEPS=4, BATCH=1), w=3, **SMALL()),
           C('short-files-nomap', 'shortio.c', SR + ',several files', dict(MAXS=250, BATCH=1, STEPS=3), w=3, libdefs=SMALL()['libdefs'] + NOMAP, hdefs=SMALL()['hdefs']),
           C('twice', 'shortio.c', SR, dict(SHORT=2, STEPS=1, BATCH=1, NK=1, L0=4, MAXS=14), w=4), C('fsync', 'shortio.c', SR, dict(STEPS=1), libdefs=FS),
           C('big', 'shortio.c', SR, dict(STEPS=1, BATCH=3, L0=700, L1=1023, REOPEN=0), w=2),
           C('twice-all', 'shortio.c', SR, dict(SHORT=2, STEPS=1, BATCH=1, NK=1, L0=4), t=60, **T), C('twice-nomap', 'shortio.c', SR, dict(SHORT=2, STEPS=1, BATCH=1, NK=1, L0=4, MAXS=250), libdefs=NOMAP, t=100, **T),
           C('twice-files', 'shortio.c', SR, dict(SHORT=2, STEPS=3, BATCH=1, NK=2, L0=60), t=100, **SMALL(), **T), C('thrice', 'shortio.c', SR, dict(SHORT=3, STEPS=1, BATCH=1, NK=1, L0=1, REOPEN=0), t=100, **T)])

# ---------------------------------------------------------------- C21 the command-line tool
def L(name, reach, P, **kw): return C(name, 'cli.c', reach, P, cli=1, **kw)
AF = 'accepted,refused'
PROPS['C21'] = dict(
  bounds='key, root and proof arguments of 0-80 (proofs: every length up to a whole proof) characters and value arguments of 0-12 and 2040-2056 characters with 1-3 arbitrary characters (all of them for keys and roots of 63-65 characters), for each command that takes one; every list of 3 arguments out of 30 (every command, every option, good and bad hex, known and unknown roots, other paths), alone, after each command and with 2 more after "verify K PROOF", "get K", "prove K", "insert K" and "list" / "info", from inside and outside the database, with and without URKEL_PATH; arguments of up to 3 arbitrary characters; 29-35 positional arguments; outputs for values of every size',
  outside='running out of memory inside the tool (it aborts), terminals and broken pipes, environments other than URKEL_PATH; what the commands do to the database is decided by the other checks',
  assume=['a positional argument beyond those a command takes, and a --root given to a command that does not use one, are ignored, as the tool has always done', 'info prints the current root even when an older snapshot is asked for'],
  configs=[L('key', AF + ',found,failed', dict(W=2)), L('key-all', AF, dict(CHI=0, LO=63, HI=65, W=9)), L('key-all-verify', AF, dict(CLO=4, CHI=4, LO=63, HI=65, W=9)), L('root-all', AF, dict(CLO=5, LO=63, HI=65, W=9, LONG=1)), L('key-short', 'refused', dict(LO=0, HI=61, W=1)), L('key-long', 'refused', dict(LO=66, HI=80, W=3)),
           L('value', AF, dict(MODE=1, HI=12, W=3)), L('value-long', 'accepted,refused,failed', dict(MODE=1, LO=2040, HI=2056)), L('value-512', AF, dict(MODE=1, LO=1018, HI=1030)), L('value-256', AF, dict(MODE=1, LO=508, HI=516)), L('value-all', AF, dict(MODE=1, LO=5, HI=10, W=9)),
           L('lists', AF + ',created,destroyed,help,inserted,removed,proved,found,failed', dict(MODE=2)), L('lists-env', AF, dict(MODE=2, ENV=1, CWD=0, N=2)), L('lists-env-other', AF, dict(MODE=2, ENV=2, N=2)), L('lists-outside', AF, dict(MODE=2, CWD=0, N=2)),
           L('verify', AF, dict(MODE=2, FIX=24, FIX2=20)), L('get', AF + ',found', dict(MODE=2, FIX=11, FIX2=20)), L('prove', AF + ',proved', dict(MODE=2, FIX=14, FIX2=21)), L('insert', AF + ',inserted', dict(MODE=2, FIX=12, FIX2=20)), L('remove', AF + ',removed', dict(MODE=2, FIX=13, FIX2=20)),
           L('list', AF, dict(MODE=2, FIX=15)), L('info', AF, dict(MODE=2, FIX=17)), L('root', AF, dict(MODE=2, FIX=16)), L('path', AF, dict(MODE=2, FIX=0, FIX2=26, N=2, CWD=0)), L('many', AF, dict(MODE=4)),
           L('proof', 'verified,rejected,refused', dict(MODE=6)), L('proof-absent', 'verified,rejected,refused', dict(MODE=6, ABSENT=1)), L('sizes', 'accepted', dict(MODE=5)), L('sizes2', 'accepted', dict(MODE=5, NK=2, LO=1000, HI=1023)), L('sizes3', 'accepted', dict(MODE=5, NK=3, LO=0, HI=9))]
        + [L('chars-%d-%d' % (p, w), '', dict(MODE=3, PRE=p, WHERE=w, HI=3)) for p in range(7) for w in (0, 1)]
        + [L('lists4-%d' % i, AF, dict(MODE=2, FIX=i), t=100, **T) for i in (0, 3, 7, 11, 12, 13, 14, 18, 19, 24)] + [L('verify4', AF, dict(MODE=2, FIX=24, FIX2=20, N=4), t=200, **T), L('get4', AF, dict(MODE=2, FIX=11, FIX2=20, N=4), t=200, **T), L('prove4', AF, dict(MODE=2, FIX=14, FIX2=21, N=4), t=200, **T), L('key4', AF, dict(LO=60, HI=68, W=9), t=200, **T), L('sizes2-all', 'accepted', dict(MODE=5, NK=2), t=200, **T)])

# ---------------------------------------------------------------- C25 formats
PROPS['C25'] = dict(
  bounds='every byte of the data files after 1-5 commits over 1-4 keys with symbolic branch bits (pairs: all 256), values of every size and symbolic bytes, with and without reopening and roll-over, parsed by an independent reader down to the last padding byte; the same databases written by an independent writer (two record orders, gaps of 0-40 bytes, several files, file numbers to 300, positions around 64 KB, 16 MB and just below 2 GB) opened, read, proved, iterated and extended; a database and proofs written by the library as of the pinned commit; the example of the README; proofs and roots against independent encoders; the 32-byte BLAKE2b of messages of 0-130 bytes',
  outside='file numbers above 300, five or more keys, the Windows file layer; the order in which records are laid out is not part of the format',
  assume=['in the symbolic configurations digests are those of an ideal hash: that the hash is BLAKE2b is decided by C17 and by the configurations with the real one'],
  configs=[C('gold', 'wire.c', 'gold', dict(MODE=2), hash='real', hdefs=['-DGOLD']), C('readme', 'wire.c', 'gold', dict(MODE=3), hash='real', hdefs=['-DGOLD']),
           C('read', 'wire.c', 'read back,padding,prefix', {}), C('read-full', 'wire.c', 'read back,prefix,long prefix', dict(KEYS=0, VSYM=1), w=2), C('read3', 'wire.c', 'read back,prefix,no prefix', dict(NK=3, STEPS=3, REOPEN=1)), C('read3-wide', 'wire.c', 'read back,long prefix', dict(NK=3, STEPS=1, BATCH=3, KEYS=8)),
           C('read-sizes', 'wire.c', 'read back,long prefix', dict(KEYS=9, SIZES=1, LO=250, HI=260)), C('read-size', 'wire.c', 'read back', dict(KEYS=9, SIZES=1, NK=1, STEPS=1)), C('read-del', 'wire.c', 'read back', dict(DEL=1, STEPS=4, NK=2)), C('read-batch', 'wire.c', 'read back', dict(STEPS=2, BATCH=3, NK=3, KEYS=2)),
           C('read-files', 'wire.c', 'read back,several files', dict(STEPS=5, KEYS=9, NK=3), **SMALL()), C('read-files2', 'wire.c', 'read back,several files', dict(STEPS=3, KEYS=4, BATCH=2, REOPEN=1), **SMALL()),
           C('write', 'wire.c', 'written,read back', dict(MODE=1)), C('write-wide', 'wire.c', 'written,read back', dict(MODE=1, KEYS=1, VSYM=1, STEPS=2, ORDER=1, LO=3)), C('write3', 'wire.c', 'written', dict(MODE=1, NK=3, STEPS=4, KEYS=7, HI=0), w=2), C('write-sizes', 'wire.c', 'written', dict(MODE=1, KEYS=9, STEPS=2, HI=1023, ORDER=0), w=4), C('write-del', 'wire.c', 'written', dict(MODE=1, STEPS=4, DEL=1)),
           C('write-index', 'wire.c', 'written', dict(MODE=1, IDX=300, KEYS=7, HI=0, ORDER=0), hdefs=['-DNINO=400', '-DNDENT=400']), C('write-pos16', 'wire.c', 'written', dict(MODE=1, KEYS=9, HI=0, POS=65500, NPOS=80, ORDER=1)), C('write-pos24', 'wire.c', 'written', dict(MODE=1, KEYS=7, HI=0, POS=16777200, NPOS=2, ORDER=0)), C('write-pos31', 'wire.c', 'written', dict(MODE=1, KEYS=7, HI=0, POS=2147400000)), C('write-pos31-end', 'wire.c', 'written', dict(MODE=1, KEYS=9, HI=0, POS=2147479000, STEPS=2)),
           C('write-split', 'wire.c', 'written,several files', dict(MODE=1, KEYS=7, SPLIT=1, HI=0)), C('write-gap', 'wire.c', 'written', dict(MODE=1, KEYS=9, GAP=40, HI=0, STEPS=1, NK=1)),
           C('proof2', 'proof.c', 'short,collision,exists', dict(NK=2, KEYS=4, QKEY=4)), C('proof2-sizes', 'proof.c', 'exists', dict(NK=2, L0=1023, L1=256, KEYS=2, QKEY=2, STAGE=2)), C('proof2-wide', 'proof.c', 'exists', dict(NK=2, KEYS=1, QKEY=1, STAGE=0)), B('hash', dict(LO=0, HI=64, SPLITS=0)), B('hash-block', dict(LO=127, HI=130, SPLITS=0)),
           C('read4', 'wire.c', 'read back', dict(NK=4, STEPS=2, BATCH=2, KEYS=4), t=100, **T), C('read-sizes-all', 'wire.c', 'read back', dict(KEYS=9, SIZES=1), t=100, **T), C('write-full', 'wire.c', 'written,read back', dict(MODE=1, KEYS=0, VSYM=1, STEPS=2, ORDER=1), t=200, **T), C('write-gap2', 'wire.c', 'written', dict(MODE=1, KEYS=9, GAP=40, HI=0, STEPS=2), t=200, **T), C('write-full3', 'wire.c', 'written', dict(MODE=1, NK=3, KEYS=8, STEPS=3), t=100, **T), C('write-gap3', 'wire.c', 'written', dict(MODE=1, KEYS=7, SPLIT=1, GAP=40, HI=0), t=200, **T), C('read-files5', 'wire.c', 'read back,several files', dict(STEPS=6, KEYS=4, NK=2), t=100, **SMALL(), **T), C('write-pos-all', 'wire.c', 'written', dict(MODE=1, KEYS=9, HI=0, POS=65400, NPOS=300), t=100, **T)])
# ---------------------------------------------------------------- keys that part at symbolic positions
def X(name, P, reach='', **kw): return C(name, 'split.c', reach, P, **kw)
def add(prop, bounds, configs): PROPS[prop]['configs'] = PROPS[prop]['configs'] + configs; PROPS[prop]['bounds'] += '; ' + bounds
SPL = 'every key of 256 symbolic bits with keys parting from it at two symbolic positions'
add('C01', SPL + ' (0..7 and up to 12 further; any position and 246..255), in every order of insertion, removal of any of them, working, committed or reopened',
    [X('split-top', dict(AHI=4, DHI=11, STORE=0), 'removed,committed,reopened', w=3), X('split-deep', dict(BLO=254, STAGE=0, ORDERS=1, STORE=0), 'removed', w=3), X('split-four', dict(AHI=7, DHI=9, STORE=0, STAGE=0, FOUR=1, ORDERS=1), 'removed', w=2)]
    + [X('split-all%d' % i, dict(ALO=i * 8, AHI=i * 8 + 7, DHI=255, STAGE=2, ORDER=1, STORE=0), 'removed', t=60, **T) for i in range(32)])
add('C03', SPL + ' (0..15 and up to 17 further; any position and up to 9 further; 253..255 under any), orders of insertion and removal (thorough: any two positions)',
    [X('split-top', dict(AHI=15, DHI=17, STAGE=0, ORDERS=1, STORE=0), 'removed', w=3), X('split-join', dict(AHI=255, DHI=9, STAGE=0, ORDER=0, RM=1, STORE=0), 'removed', w=4), X('split-deep', dict(BLO=253, AHI=247, STAGE=0, ORDER=0, RM=1, STORE=0), 'removed', w=4), X('split-four', dict(AHI=15, DHI=9, STAGE=0, FOUR=1, ORDERS=1, STORE=0), 'removed', w=3)]
    + [X('split-all%d' % i, dict(ALO=i * 8, AHI=i * 8 + 7, DHI=255, STAGE=0, ORDERS=1, STORE=0), 'removed', t=60, **T) for i in range(32)])
add('C04', SPL + ' and a queried key parting from them at any position',
    [X('split', dict(AHI=3, DHI=9, STAGE=0, ORDER=0, RM=3, STORE=0, PROVE=1, CHI=30), 'presence,absence', w=3), X('split-deep', dict(ALO=125, AHI=128, BLO=252, STAGE=2, ORDER=0, RM=3, STORE=0, PROVE=1, CLO=120, CHI=131), 'presence,absence', w=3), X('split-four', dict(AHI=255, DHI=1, STAGE=0, ORDER=0, RM=4, STORE=0, PROVE=1, CLO=255, FOUR=1), 'presence,absence', w=3)]
    + [X('split-all%d' % i, dict(ALO=i * 16, AHI=i * 16 + 15, DHI=9, STAGE=1, ORDER=0, RM=3, STORE=0, PROVE=1), '', t=100, **T) for i in range(16)])
add('C08', SPL, [X('split', dict(AHI=15, DHI=17, ORDERS=0, ITER=1, STAGE=0), 'removed', w=3), X('split-four', dict(AHI=255, DHI=1, ORDER=0, ITER=1, STAGE=2, FOUR=1, RM=4), 'reopened', w=3)])
add('C09', SPL + ', stored, reopened and taken apart again', [X('split', dict(AHI=15, DHI=17, ORDER=1, STAGE=2, RM=1), 'removed,reopened', w=3), X('split-deep', dict(BLO=255, AHI=254, STAGE=2, ORDER=0, RM=3), 'reopened', w=3), X('split-far', dict(AHI=255, DHI=2, STAGE=1, ORDER=0, RM=2), 'removed,committed', w=3)])
add('C06', 'presence proofs announcing values of every size up to 65535 in buffers of 1024-4000 bytes', [C('big-value', 'verify.c', 'rejected', dict(LO=1030, HI=1090, CNT=0, TYPE=3, NK=1, QSEL=0)), C('big-value2', 'verify.c', 'rejected', dict(LO=3998, HI=4000, CNT=0, TYPE=3, NK=1, QSEL=0, DHI=2))])
add('C04', 'chains of 256 levels', [C('chain256', 'deep.c', 'proved', dict(N=256, OP=1), insts=4 * 10**9, w=5)])
add('C06', 'proofs of 256 levels', [C('chain256', 'deep.c', 'proved', dict(N=256, OP=1), insts=4 * 10**9, w=5)])
D = 'direct,failed change'
DIRECT = [C('fault-direct', 'fault.c', D, dict(DIRECT=1, READS=0)), C('fault-direct2', 'fault.c', D, dict(DIRECT=1, STEPS=2, PRE=2, NK=2), w=2), C('fault-direct-nomap', 'fault.c', D, dict(DIRECT=1, PRE=3, NK=3), libdefs=NOMAP)]
add('C12', 'the calls that change and commit in one; roll-over to new files', DIRECT + [C('roll-fault', 'fault.c', 'failed open,failed commit,failed read', dict(STEPS=2, AFTER=0), **SMALL()), C('roll-fault-batch', 'fault.c', 'failed open,failed commit', dict(PRE=2, STEPS=1, BATCH=3, NK=3, AFTER=0), **SMALL()), C('roll-fault-direct', 'fault.c', D, dict(DIRECT=1, PRE=3, NK=2), **SMALL())])
add('C22', 'failing urkel_insert and urkel_remove', DIRECT[::2])
add('C23', 'failing urkel_insert and urkel_remove', DIRECT[::2])

OV = 'a value overwritten by another, both of every listed size and all bytes symbolic, read before and after the commit and after reopening'
add('C01', OV, [C('overwrite', 'over.c', 'in memory,committed,reopened', {})])
add('C11', OV, [C('overwrite', 'over.c', 'in memory,committed,reopened', {})])
add('C02', 'lookups of committed roots that fail before anything is cached', [C('hist-fault', 'fault.c', 'failed lookup', dict(HIST=1, STEPS=0, PRE=4, NK=3, L0=0, L0HI=20), w=3, **SMALL()), C('hist-fault-big', 'fault.c', 'failed lookup', dict(HIST=1, STEPS=0, PRE=4, NK=3, L0=140, L0HI=150), w=2, **SMALL()),
    C('hist-fault-nomap', 'fault.c', '', dict(HIST=1, STEPS=0, PRE=3, NK=2), libdefs=NOMAP, w=2)])
INJ = [C('fault-inject', 'fault.c', 'failed open,failed commit,injected', dict(INJECT=1, PRE=2)), C('fault-inject-after', 'fault.c', 'failed open,failed commit,injected', dict(INJECT=1, PRE=2, AFTER=1)), C('fault-inject-direct', 'fault.c', 'failed open,injected', dict(INJECT=1, PRE=2, DIRECT=1))]
add('C12', 'databases rewound to a committed root before the failing commits', INJ)
add('C20', 'databases rewound to a committed root before the failing commits', INJ[:1])

add('C15', 'a process that tries to destroy and then to open, or the other way round', [C('open-tryboth', 'excl.c', 'opened,destroyed,destroy refused,second opened,open refused', dict(MODE2=2, ROUNDS2=2), norace=True, w=2), C('open-tryboth2', 'excl.c', 'opened,destroyed,destroy refused,second opened,open refused', dict(MODE2=3, ROUNDS2=2), norace=True, w=2), C('destroy-tryboth', 'excl.c', '', dict(MODE1=1, MODE2=3, ROUNDS2=2), norace=True, **T)])
add('C10', 'commits over several new files, recovery itself crashing', [C('roll-crash-recover', 'crash.c', CR + ',crash in recovery', dict(PRE=1, BATCH=3, NK=3, RE=2, L0=200, L1=150), w=3, **SMALL()), C('roll-crash-create', 'crash.c', 'crash,no crash,crash in recovery', dict(PRE=0, BATCH=3, NK=3, RE=2, L0=200, L1=180), w=3, **SMALL())])

add('C22', 'the error of every failed verification is one of the things that are wrong with the proof, worked out from its bytes', [
    C('cause-any', 'verify.c', 'rejected,EINVAL,malformed,well formed', dict(LO=0, HI=12, CAUSE=1)), C('cause-zero', 'verify.c', 'rejected,well formed', dict(LO=36, HI=44, CNT=0, CAUSE=1)), C('cause-nodes', 'verify.c', 'rejected,well formed', dict(LO=36, HI=44, NK=1, CNT=1, DHI=12, PMAX=9, CAUSE=1)),
    C('cause-two', 'verify.c', 'rejected,well formed', dict(LO=69, HI=72, NK=1, CNT=2, DHI=5, PMAX=4, QSEL=0, CAUSE=1, TYPE=0)), C('cause-short', 'verify.c', 'rejected,well formed', dict(LO=69, HI=72, CNT=0, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=1, CAUSE=1)), C('cause-collision', 'verify.c', 'rejected,well formed', dict(LO=68, HI=69, CNT=0, NK=1, DHI=3, TYPE=2, CAUSE=1)),
    C('cause-exists', 'verify.c', 'rejected,well formed', dict(LO=39, HI=44, CNT=1, NK=2, KEYS=2, DHI=12, PMAX=9, TYPE=3, CAUSE=1)), C('cause-mut', 'mutate.c', 'accepted,rejected,truncated,extended,well formed,malformed', dict(NK=2, KEYS=4, CAUSE=1)), C('cause-mut3', 'mutate.c', 'accepted,rejected', dict(NK=3, KEYS=7, CAUSE=1), t=60, **T)])

FC = 'failed,succeeded,succeeded all the same'
add('C21', 'key arguments of 24 lengths from 0 to 2200 characters under --hash, with 3 arbitrary characters, against another that differs in one arbitrary character at 4 places; every command while any 1 or 2 system calls of any kind fail, with and without memory mapping and over several data files: it exits 0 exactly when it printed all and did all',
    [L('hashed', 'accepted,found,failed', dict(MODE=7)), L('faults', FC, dict(MODE=8)), L('faults2', FC, dict(MODE=8, FAULTS=2)), L('faults-nomap', FC, dict(MODE=8), libdefs=NOMAP), L('faults-nomap2', FC, dict(MODE=8, FAULTS=2, NK=2), libdefs=NOMAP), L('faults-files', FC, dict(MODE=8, FAULTS=2), **SMALL()), L('faults3', FC, dict(MODE=8, FAULTS=3), libdefs=NOMAP, t=100, **T)])
CUT = [X('cut%d' % i, dict(ALO=a, AHI=b, DHI=255, STAGE=0, ORDER=1, RM=2, STORE=0, SYM=0), 'removed', w=12) for i, (a, b) in enumerate(((0, 33), (34, 73), (74, 127), (128, 255)))]
CUTS = 'a path cut by a later key at any position, above any lower branch (one key in full; every key for the last bit and up to 3 bits apart)'
add('C03', CUTS, CUT + [X('cut-last', dict(BLO=255, AHI=254, STAGE=0, ORDER=1, RM=3, STORE=0), '', w=2), X('cut-near', dict(AHI=255, DHI=3, STAGE=0, ORDER=1, RM=3, STORE=0), '', w=4)])
add('C01', CUTS, [X('cut-last', dict(BLO=255, AHI=254, STAGE=0, ORDER=1, RM=1, STORE=0), 'removed', w=2), X('cut-near', dict(AHI=255, DHI=3, STAGE=0, ORDER=1, RM=0, STORE=0), 'removed', w=4)])
add('C04', CUTS, [X('cut-last', dict(BLO=255, AHI=254, STAGE=0, ORDER=1, RM=3, STORE=0, PROVE=1, CHI=0, SYM=0), 'presence,absence', w=3), X('cut-near', dict(AHI=255, DHI=2, STAGE=0, ORDER=1, RM=3, STORE=0, PROVE=1, CLO=255, SYM=0), 'presence,absence', w=4)])
add('C09', CUTS, [X('cut-last', dict(BLO=255, AHI=254, STAGE=2, ORDER=1, RM=1), 'removed,reopened', w=4), X('cut-near', dict(AHI=255, DHI=2, STAGE=2, ORDER=1, RM=0, SYM=0), 'removed,reopened', w=4)])
MF = dict(libdefs=SMALL(260, 32)['libdefs'], hdefs=SMALL(260, 32)['hdefs'] + ['-DNINO=1500', '-DNDENT=1500', '-DNFD=1500', '-DNMAP=1500'])
RTS = [C('roots', 'roots.c', 'read', dict(N=2500), insts=8 * 10**9, hash='real', w=3), C('roots-cold', 'roots.c', 'read', dict(N=2500, COLD=1), insts=8 * 10**9, hash='real', w=4), C('roots-files', 'roots.c', 'read', dict(N=600, COLD=1), insts=8 * 10**9, hash='real', w=3, **MF)]
add('C02', '2500 roots committed in one session (600 over as many data files), each read again in that session and after reopening, in any of 4 orders', RTS)
add('C16', '600 roots over as many data files, each read again after reopening, in any of 4 orders', RTS[2:])
CUTR = 'a removal that merges stored paths of any lengths, after reopening'
for p_, kw_ in (('C01', {}), ('C03', {}), ('C08', dict(ITER=1)), ('C04', dict(PROVE=1, CHI=0))): add(p_, CUTR, [X('cut-stored', dict(BLO=255, AHI=254, STAGE=2, ORDER=1, RM=1, STORE=0, SYM=0, **kw_), 'removed,reopened', w=3), X('cut-stored-near', dict(AHI=254, DHI=2, STAGE=2, ORDER=1, RM=1, STORE=0, SYM=0, **kw_), 'removed,reopened', w=3)])
FULLP = [C('full256', 'verify.c', 'rejected,full', dict(FULL=256, FULLHI=256, PB=0, NK=1, QSEL=0), t=120, **T), C('full-over', 'verify.c', 'rejected,full', dict(FULL=257, FULLHI=260, CAUSE=1, NK=1, QSEL=0), w=2),
         C('full128-prefix', 'verify.c', 'rejected,full', dict(FULL=128, FULLHI=128, NK=1, QSEL=0), t=120, **T), C('full256-prefix', 'verify.c', 'rejected,full', dict(FULL=256, FULLHI=256, NK=1, QSEL=1), t=120, **T)]
for p_ in ('C05', 'C06', 'C22'): add(p_, 'proofs of 128 and 256-260 nodes with any end, headers and first or last prefixes around the limits', FULLP if p_ == 'C06' else FULLP[1:2])
GONE = [C('gone', 'corrupt.c', 'damaged,refused,opened,several files', dict(MODE=6, F=-1, PRE=4), w=2, **SMALL()), C('gone5', 'corrupt.c', 'damaged,refused,opened,several files', dict(MODE=6, F=-1, PRE=6, NK=2), w=2, **SMALL())]
add('C13', 'any of the data files and the key missing, and files of other numbers turning up', GONE)
add('C23', 'opening with any data files missing or added', GONE[:1])
add('C02', 'roots whose commit failed', [C('uncommitted', 'fault.c', FR + ',never committed', {}), C('uncommitted-direct', 'fault.c', 'failed change,never committed', dict(DIRECT=1, STEPS=2, PRE=1), w=2)])
WIN = SMALL(10**6, 4, 10**6)
add('C09', 'files longer than the recovery window (reduced to 3 records), and several files (limit 260 bytes)', [C('window', 'hist.c', 'commit,reopen', dict(NK=2, OPS=2, UNK=0, KEYS=7, PRE=3), **WIN), C('window-map', 'map.c', MR + ',commit,reopen', dict(NK=2, KEYS=7, OPS=3, L0=0, L1=60), **WIN), C('window-long', 'long.c', LR, dict(N=60, REOPEN=7, ALL=1), insts=4 * 10**9, **WIN), C('files', 'roll.c', RR, dict(STEPS=5, REOPEN=99), w=2, **SMALL(wbuf=10**6))])
add('C13', 'the same damage with a recovery window of 3 records', [C('cut-window', 'corrupt.c', 'damaged,rolled back', dict(MODE=1, PRE=5, NK=2), **WIN), C('append-window', 'corrupt.c', 'damaged,rolled back', dict(MODE=2, LO=100, HI=125), w=2, **WIN), C('byte-window', 'corrupt.c', 'damaged,opened', dict(LO=460), w=2, **WIN)])
DES = [C('destroy-fault', 'fault.c', 'destroyed,failed destroy,still whole', dict(DESTROY=1, FAULTS=2)), C('destroy-fault-files', 'fault.c', 'destroyed,failed destroy,still whole', dict(DESTROY=1, FAULTS=2, L0=200, L1=150, PRE=3, MULTI=1), **SMALL())]
for p_ in ('C12', 'C22', 'C23'): add(p_, 'destroying (one or several data files) while one or two of its system calls fail (including listing, looking up, creating and removing directories, and locking), repeated until it succeeds', DES)
add('C18', 'relative spellings of 7180-7260 bytes (around the size of the buffer they are resolved in) and absolute ones of 8100-8200', [C('length-buffer-rel', 'path.c', 'accepted,refused', dict(MODE=1, PAD=7140, PADHI=7220, REL=1, LO=1000, HI=1002), w=2), C('length-buffer', 'path.c', 'accepted', dict(MODE=1, PAD=7180, PADHI=7220, LO=1000, HI=1000))])
add('C23', 'spellings of a path around the size of the buffer they are resolved in', [C('length-buffer-rel', 'path.c', 'accepted,refused', dict(MODE=1, PAD=7180, PADHI=7200, REL=1, LO=1001, HI=1001), w=2)])
HOOKS = {'guard': 'URKEL_VERIF', 'enable': 'compile the sources with -DURKEL_VERIF -DURKEL_VERIF_FILE_SIZE=n -DURKEL_VERIF_OPEN_FILES=n -DURKEL_VERIF_WRITE_BUFFER=n -DURKEL_VERIF_READ_BUFFER=n (the checks of C16 do)', 'source_commits': ['1bf288d']}
