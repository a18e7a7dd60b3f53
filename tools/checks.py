"""What each check runs: groups (how a driver is built) and, per property, suites with (quick, thorough) case counts."""
COMMON = ['-std=c++17', '-w', '-g', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
ASAN = COMMON + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
TSAN = COMMON + ['-O1', '-fsanitize=thread']
PLAIN = COMMON + ['-O1']
RON = ['ron/%s.cc' % f for f in 'hash status text-builder text-parser text utf8-parser cp-parser uuid-parser uuid'.split()]
GROUPS = {
    'ron': dict(cxx='clang++', flags=ASAN, harness=['vf.cc', 'driver_ron.cc'], repo=RON + ['db/key.cc'], libs=['-lbotan-2', '-lpthread']),
    'ron_plain': dict(cxx='clang++', flags=PLAIN, harness=['vf.cc', 'driver_ron.cc'], repo=RON + ['db/key.cc'], libs=['-lbotan-2', '-lpthread'],
                      wrap=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--trace-children=yes']),
}
RULES = dict(assumptions=[
    'held on the executions counted here, not proved: inputs the workload does not draw are not covered',
    'compiled by clang 18 with AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and the project\'s own assert() active, unless the observed counters say valgrind or ThreadSanitizer',
])
GEN = 'Cases are drawn from a seeded generator biased to boundary values (see harness/model.hpp); '


GROUPS['rdt'] = dict(cxx='clang++', flags=ASAN, harness=['vf.cc', 'driver_rdt.cc'], repo=RON, libs=['-lbotan-2', '-lpthread'])


DB = RON + ['db/key.cc', 'db/rocks_store.cc']
DBLIBS = ['-lrocksdb', '-lbotan-2', '-lpthread', '-ldl']
GROUPS['store'] = dict(cxx='clang++', flags=ASAN, harness=['vf.cc', 'driver_store.cc'], repo=DB, libs=DBLIBS)
GROUPS['crash'] = dict(cxx='clang++', flags=PLAIN, harness=['vf.cc', 'driver_crash.cc'], repo=DB, libs=DBLIBS)
GROUPS['mem'] = dict(cxx='clang++', flags=ASAN, harness=['vf.cc', 'driver_mem.cc'], repo=DB, libs=DBLIBS, inc=['shim'])
GROUPS['replica'] = dict(cxx='clang++', flags=ASAN, harness=['vf.cc', 'driver_replica.cc'], repo=DB + ['db/replica.cc'], libs=DBLIBS, inc=['shim'])
GROUPS['damage'] = dict(cxx='clang++', flags=ASAN, harness=['vf.cc', 'driver_damage.cc'], repo=DB + ['db/replica.cc'], libs=DBLIBS, inc=['shim'])
GROUPS['replica_crash'] = dict(cxx='clang++', flags=PLAIN, harness=['vf.cc', 'driver_replica_crash.cc'], repo=DB + ['db/replica.cc'], libs=DBLIBS, inc=['shim'])
# the sanitizer's own operator new and delete are left out (the driver has its own), and only what it must
# intercept in the libraries is exported to them
GROUPS['mt'] = dict(cxx='clang++', flags=TSAN, harness=['vf.cc', 'driver_mt.cc'], repo=DB,
                    libs=['-fno-sanitize-link-runtime', '-Wl,--whole-archive', '{TSANRT}', '-Wl,--no-whole-archive', '-Wl,--export-dynamic',
                          '-Wl,--version-script={V}/tools/tsan.map'] + DBLIBS + ['-lrt', '-lm'])


def rdt(**suites):
    return [dict(group='rdt', suites=suites)]


def ron(**suites):
    return [dict(group='ron', suites=suites)]


CHECKS = {
    'P01': dict(parts=ron(uuid_text=(2000000, 40000000), uuid_order=(1000000, 20000000)),
                rule=GEN + 'every id is printed, parsed, mangled and compared; distinct = different printed ids or compared pairs.',
                must_see=['mangled ids: still legal']),
    'P02': dict(parts=ron(hostile=(3000000, 60000000), hostile_big=(15000, 300000)) + [
        dict(group='ron_plain', label='valgrind: ', suites=dict(hostile=(20000, 200000), malformed=(20000, 200000), write_cursor=(8000, 80000)))],
                rule=GEN + 'random bytes, mutated and spliced frames, pathological nesting and sizes, in exact-size heap buffers; distinct = different inputs.'),
    'P03': dict(parts=ron(conform=(800000, 16000000), malformed=(2000000, 40000000)),
                rule=GEN + 'op sequences in random legal spellings, and the same with a grammar-breaking edit, judged by an independent reference parser; distinct = different frames.',
                must_see=['malformed frames', 'letter spans', 'number spans']),
    'P04': dict(parts=ron(write_values=(500000, 10000000), write_cursor=(250000, 5000000), compare_frames=(500000, 10000000)),
                rule=GEN + 'op sequences appended by value, from cursors and through Op::Amend, read back by the project\'s parser; distinct = different frames.',
                must_see=['frames with spans', 'amended ops', 'chunks ended']),
    'P05': dict(parts=ron(every_character=(17408, 17408), unicode=(400000, 8000000), bad_utf8=(2000000, 40000000)),
                rule=GEN + 'every Unicode scalar value once (64 to a string), code point sequences at every encoding boundary, in every carrier, and ill-formed UTF-8; distinct = different strings.',
                must_see=['code points one by one']),
    'P06': dict(parts=ron(ints=(1000000, 20000000), floats=(1000000, 20000000), long_words=(1000000, 20000000)),
                rule=GEN + 'integer literals around every power of ten and the 64-bit limits, float literals of every shape and length, words of 1..14 characters; distinct = different literals.',
                must_see=['float literals', 'float literals rejected', 'floats written']),
    'P07': dict(parts=rdt(merge_lww=(120000, 3000000), merge_yarn=(60000, 1500000), merge_mx=(60000, 1500000), merge_meta=(60000, 1500000), merge_hostile=(150000, 4000000)),
                rule=GEN + 'histories of one object distributed over 1..12 overlapping frames in random spellings; merged at once, in other orders, repeated, through random merge trees and again with the results; judged op by op against the sorted union. Also arbitrary frames under every form, watched for memory errors and invented ops. Distinct = different sets of inputs.',
                must_see=['merge tree steps', 'MergeFrames calls', 'MergeCursors calls', 'hostile merges accepted']),
    'P08': dict(parts=rdt(merge_max=(600000, 12000000)),
                rule=GEN + 'writes of one or of mixed value types (both signs, ties, boundary values) over 1..9 overlapping states and patches in every order and grouping, judged against the greatest write; distinct = different sets of inputs.',
                must_see=['merge tree steps', 'registers merged']),
    'P09': dict(parts=rdt(merge_rga=(150000, 4000000)),
                rule=GEN + 'causal trees of up to 60 ops over 1..3 overlapping states and any number of chain patches; merged in random orders, repeated and grouped; with pieces taken away; judged against the canonical depth-first order. Distinct = different sets of inputs.',
                must_see=['merge tree steps', 'causality breaks', 'trees merged']),
    'P10': dict(parts=rdt(scan_rga=(1500000, 30000000), scan_hostile=(1500000, 30000000)),
                rule=GEN + 'causal trees with removal and undo chains of every length and place (and the same trees damaged: ops lost, swapped, repeated, re-referenced), judged op by op against the visibility rules applied to the tree; distinct = different op sequences.',
                must_see=['visible ops', 'invisible ops', 'malformed trees']),
    'P11': dict(parts=rdt(log_split=(800000, 16000000), log_replay=(200000, 5000000)),
                rule=GEN + 'logs of every mergeable type in random spellings, split, replayed and merged, and cut off at random versions (inside spans too); distinct = different logs.',
                must_see=['chains', 'cutoffs', 'past versions', 'logs replayed']),
    'P23': dict(parts=rdt(lww_view=(600000, 12000000), lww_gc=(300000, 6000000)),
                rule=GEN + 'write histories over colliding keys of every type, older and newer updates; every field is read as every type; distinct = different states.',
                must_see=['fields', 'absent fields', 'updates', 'ops collected']),
    'P12': dict(parts=ron(split=(400000, 8000000)),
                rule=GEN + 'streams of frames with whitespace, terminators inside strings, missing last terminators; distinct = different streams.'),
    'P13': dict(parts=ron(hash_text=(300000, 6000000), hash_ops=(200000, 4000000), hash_history=(100000, 2000000)),
                rule=GEN + 'random hashes, ops in two spellings and one-bit-different ops, causal histories of up to 21 ops over three authors, judged by an independent construction of the hashed bytes; distinct = different hashes.',
                assumptions=['SHA-512/256 itself is Botan\'s and is trusted']),
    'P14': dict(parts=ron(keys=(1000000, 20000000), forms=(20000, 200000)),
                rule=GEN + 'pairs of keys differing in one field or bit; all 256 form numbers; distinct = different keys.'),
    'P15': dict(parts=[dict(group='store', suites=dict(store_history=(3500, 60000), store_fail=(1000, 10000)))],
                rule=GEN + 'histories of 5..150 steps (writes, batches, reads, scans, seeks and steps both ways, flushes, compactions, reopenings, iterators outliving stores, closed-store and end-key misuse) over 1..25 colliding keys of eight types, every answer compared with a model; distinct = different histories.',
                must_see=['compactions', 'reopenings', 'batches', 'refused batches', 'seeks back', 'full scans', 'closed stores probed', 'end key writes refused', 'repairs'],
                assumptions=['the installed RocksDB 8.9.1 (with its own assertions on) stands for the bundled 5.18.3; frames written are well-formed and causally ordered per key']),
    'P16': dict(parts=[dict(group='crash', suites=dict(crash_at_call=(2500, 60000), crash_any_time=(2500, 60000), torn_log=(2500, 60000), crash_branches=(2500, 60000)))],
                rule=GEN + 'single- and multi-threaded workloads of writes, batches and flushes over several branches in a child process that dies in the n-th file system call (with a part of a write done), at a random instant or on a failing call, or whose log is torn at a random byte; recovery is crashed too; then the data is matched against every prefix between acknowledged and issued. Distinct = different workloads and crash points.',
                must_see=['crashes in a call', 'kills in mid-work', 'failing calls', 'logs torn', 'crashes while recovering', 'databases recovered', 'writes after recovery'],
                assumptions=['process crashes, not power failures: what was handed to the operating system stays (the store does not sync by default)']),
    'P17': dict(parts=[dict(group='store', suites=dict(store_branches=(1200, 25000)))],
                rule=GEN + 'histories over up to 7 branches with colliding and adjacent identifiers: creation, duplicate creation, dropping, re-creation, reopening, and everything of P15, each branch compared with a model of its own; distinct = different histories.',
                must_see=['branches created', 'branches dropped', 'duplicate branches refused', 'reopenings', 'branches checked', 'default drops refused']),
    'P18': dict(parts=[dict(group='mem', suites=dict(mem_history=(12000, 200000), join_mem=(10000, 160000), join_rocks=(1500, 25000)))],
                rule=GEN + 'histories of writes, batches, reads, scans, seeks and steps, releases over an in-memory store, and over a joined store of an in-memory overlay and an in-memory or RocksDB base, every answer compared with a model (of both parts and of their union); distinct = different histories.',
                must_see=['scans among reads', 'failed reads', 'releases', 'keys in both stores', 'base stores compared', 'refused batches'],
                assumptions=['the ordered map is a std::map behind the interface of the B-tree the code names, which is not installed here (harness/shim)']),
    'P19': dict(parts=[dict(group='replica', suites=dict(replica_history=(1500, 40000)))],
                rule=GEN + 'histories of 5..85 steps over a replica of several branches: frames of events by up to five authors (chains, forks of chains, new objects, comments, names), the same with something wrong in one or two places, frames sent again, commits saved and dropped, unstamped events, queries of objects, reads of old versions, clock readings, branches created, forked, dropped and named, reopenings; every answer and everything stored compared with a model. Distinct = different histories.',
                must_see=['frames accepted', 'frames rejected', 'commits saved', 'commits dropped', 'unstamped frames', 'new objects', 'clock readings', 'forks', 'drops', 'hops', 'branches named', 'reopenings', 'queries', 'object versions checked',
                          'rejected: refers to the future', 'rejected: refers to an unknown event', 'rejected: unknown author', 'rejected: second beginning of a yarn', "rejected: not newer than its author's last", 'rejected: malformed'],
                assumptions=['the ordered map and the text difference library the code names are not installed here; stand-ins with their interfaces are used (harness/shim)']),
    'P20': dict(parts=[dict(group='mt', label='tsan: ', suites=dict(mt_frames=(12000, 300000), mt_clock=(12000, 200000), mt_store=(3000, 60000)))],
                rule=GEN + '2..4 threads started at once, with random pauses, over shared frames and cursors (13 kinds of tasks), over the clock, and over one open store with other threads flushing, compacting and making branches; every result compared with a sequential one, every own write read back, every acknowledged write found once at the end and after reopening. Distinct = different workloads; schedules are those the machine gives.',
                must_see=['tsan: concurrent results compared', 'tsan: clock readings', 'tsan: concurrent steps', 'tsan: concurrent scans', 'tsan: final states checked'],
                assumptions=['ThreadSanitizer watches the code of the repository and its headers; RocksDB, Botan and libstdc++ are not instrumented, and their synchronization is seen only where it uses pthread calls']),
    'P21': dict(parts=ron(every_day=(4092, 4092), timestamps=(2000000, 40000000), timestamps_mt=(2000, 20000)),
                rule=GEN + 'every day of 2010-2350 (its first and last instants and four more), random instants, adjacent pairs at every field boundary, in six local time zones, against an independent calendar; distinct = different timestamps.',
                must_see=['days', 'later instants compared', 'same-step instants compared']),
    'P22': dict(parts=ron(stack_ids=(500000, 10000000), stack_ints=(500000, 10000000)),
                rule=GEN + 'push/pop histories with runs, breaks and wrap-around, against a plain vector, all iterators stepped three ways; distinct = different histories.'),
    'P24': dict(parts=[dict(group='replica_crash', suites=dict(replica_crash=(6000, 120000)))],
                rule=GEN + 'histories of frames, branch creations, forks, hops and names in a child process that dies in the n-th file system call (with a part of a write done), at a random instant or has a call fail; recovery is crashed up to two times; then a recovered replica is compared, object by object and log by log, with the model after every number of steps between acknowledged and issued, and goes on. Distinct = different histories and crash points.',
                must_see=['crashes in a call', 'kills in mid-step', 'failing calls', 'crashes while recovering', 'replicas recovered', 'unacknowledged steps that survived', 'died in a fork', 'died in a creation', 'died in a frame'],
                assumptions=['process crashes, not power failures: what was handed to the operating system stays (the store does not sync by default)', 'the ordered map and the text difference library the code names are not installed here; stand-ins with their interfaces are used (harness/shim)']),
    'P25': dict(parts=[dict(group='replica', suites=dict(replica_hostile=(2000, 40000)))],
                rule=GEN + 'histories of 10..50 requests to the branches of a replica that holds a history: events spoiled in up to four places, ops with ids, references, names, types, values and terminators of every kind, known and unknown, queries of everything, edited and cut bytes, unknown branches; what each leaves in every store is compared. Distinct = different histories.',
                must_see=['requests refused', 'requests taken', 'requests that only ask', 'requests to no branch refused', 'records read'],
                assumptions=['the ordered map and the text difference library the code names are not installed here; stand-ins with their interfaces are used (harness/shim)']),
    'P26': dict(parts=[dict(group='replica', suites=dict(replica_text=(1200, 30000)))],
                rule=GEN + 'histories of 10..50 edits of arrays by several authors (characters of every plane, strings, other values, removals, removals of removals, undos) over several branches, with a text query after each, alone or among others in one frame; the answers compared with the visible elements of the causal tree by definition. Distinct = different histories.',
                must_see=['texts read', 'characters read', 'texts of arrays with removals'],
                assumptions=['the ordered map and the text difference library the code names are not installed here; stand-ins with their interfaces are used (harness/shim)']),
    'P27': dict(parts=[dict(group='replica', suites=dict(replica_hashes=(1500, 40000)))],
                rule=GEN + 'the histories of P19; every recorded event compared with an independent construction of its hash from the whole accepted history. Distinct = different histories.',
                must_see=['event hashes checked', 'forks', 'reopenings', 'unstamped frames'],
                assumptions=['SHA-512/256 itself is Botan\'s and is trusted', 'the ordered map and the text difference library the code names are not installed here; stand-ins with their interfaces are used (harness/shim)']),
    'P28': dict(parts=[dict(group='damage', suites=dict(store_damage=(2000, 60000), replica_damage=(1000, 30000)))],
                rule=GEN + 'histories of writes to several branches of a store, and of frames, forks and names to a replica, flushed into tables; then, before or after opening, table reads fail, bring a wrong byte or end early (once, a few times or always, from the n-th), or a table file is altered, cut or lost, and the block cache is dropped; every read, seek, step, query, frame and fork must then end in the right answer or an error, and after failing reads the whole state is compared again. Distinct = different histories.',
                must_see=['reads spoiled', 'files spoiled', 'errors: open', 'errors: read', 'errors: seek', 'errors: step', 'errors: object', 'errors: query', 'errors: frame', 'errors: fork', 'right answers in trouble', 'joined stores', 'databases sound afterwards', 'replicas sound afterwards'],
                assumptions=['the faults are those of table files: RocksDB takes damaged write-ahead logs for the end of the data by design', 'the ordered map and the text difference library the code names are not installed here; stand-ins with their interfaces are used (harness/shim)']),
}
