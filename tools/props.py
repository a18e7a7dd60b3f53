#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("P01", "Identifier text form is lossless; identifier order is total and consistent",
 "Every 128-bit identifier (any variety, any of the four versions, any 60-bit value and origin) prints to text that parses back to the same identifier, and every legal spelling (padding zeros, explicit zero variety or origin) of an identifier parses to it. Any other non-empty byte string, including truncated or over-long ones, parses to the single error identifier and never crashes. Identifiers are totally ordered by value, then origin; equality, hashing, successor and predecessor agree with that order.",
 ["inputs"], "all identifiers of the 128-bit space; all byte strings up to a few hundred bytes, exhaustively for the shortest ones",
 "the tests parse a dozen hand-picked identifiers; the guarantee is over 2^120 identifiers and over every malformed spelling",
 ["ron/uuid.hpp", "ron/uuid.cc", "ron/uuid-parser.cc", "ragel/uuid-grammar.rl", "ragel/uuid-parser.rl"],
 [("trailing-zero trimming printer", "ron/uuid.cc Word::write_base64"), ("generated identifier parser", "ron/uuid-parser.cc"), ("comparison operators", "ron/uuid.hpp Uuid")],
 [("value/origin words", "60-bit payload, 4 flag bits each", "ron/uuid.hpp Word")],
 ["Uuid(Slice)", "Uuid::str", "Uuid comparison and inc/dec"])

prop("P02", "Arbitrary bytes never crash, corrupt or hang the parser",
 "Iterating a frame over any byte string, reading every value of every op, decoding every string and re-serializing every op performs no out-of-bounds access, no use of uninitialised memory, no undefined arithmetic and no abort. Iteration always ends, with either end-of-frame or a syntax error, after work bounded by the input size plus the number of ops it legally describes; once ended it stays ended and yields no more ops.",
 ["inputs"], "all byte strings: random, grammar-generated, mutated, truncated and spliced frames, and buffers without a terminating NUL",
 "the tests feed about forty well-formed or mildly broken strings; a parser's safety is a claim over all byte strings and the tests run without any memory monitor",
 ["ron/text-parser.cc", "ron/cp-parser.cc", "ron/text.cc", "ron/text.hpp", "ron/slice.hpp", "ragel/text-grammar.rl", "ragel/text-parser.rl", "ragel/cp-parser.rl"],
 [("generated frame state machine", "ron/text-parser.cc Cursor::Next"), ("range/slice assertions", "ron/slice.hpp"), ("oversize checks", "ron/text.cc int_too_big, ron/text.hpp word_too_big")],
 [("parser state", "ragel state, remaining range, span counter", "ron/text.hpp Cursor")],
 ["Cursor::Next", "Cursor::atom", "Cursor::NextCodepoint", "Builder::AppendOp"])

prop("P03", "Parsing recovers exactly the ops the notation describes",
 "For every well-formed frame, in any legal spelling (abbreviated or explicit ids and references, optional whitespace, quoted or bare values, number and letter spans, escapes, comments and every terminator), iteration yields exactly the described sequence of ops: same ids, references, value types, values, and terminators. For every malformed frame, exactly the ops before the defect are yielded and then a syntax error, never a silent end-of-frame and never an op that was not written.",
 ["inputs"], "all frames: op sequences drawn from a model, spelled at random; plus mutations and arbitrary strings over the grammar's alphabet judged by an independent reference recogniser",
 "the tests check a few spellings each; spelling choices multiply, and default-filling and span expansion depend on every previous op",
 ["ron/text-parser.cc", "ron/cp-parser.cc", "ron/text.cc", "ron/text.hpp", "ragel/text-grammar.rl"],
 [("default id = previous + 1, default ref = previous id", "ragel/text-parser.rl"), ("span expansion", "ragel/text-parser.rl span_size_")],
 [("prev op atoms", "source of the defaults", "ron/text.hpp Cursor::op_")],
 ["Cursor::Next", "Cursor::id/ref/term/atom"])

prop("P04", "Writing ops and reading them back is the identity",
 "Any sequence of ops appended to a frame builder, from values or from another frame's cursor, with any chunk terminators, yields a frame that parses to exactly the same ops, values and value types, whatever abbreviation or span compression the writer chose. Re-serializing a parsed frame, any number of times, yields an equivalent frame, and the second and later re-serializations are byte-identical.",
 ["inputs"], "all op sequences with values of every type (integers over the whole 64-bit range, finite floats, identifiers, strings over all of Unicode) and any pattern of consecutive ids that triggers span compression",
 "the tests round-trip a dozen fixed frames; compression decisions depend on pairs of neighbouring ops, value types and escapes, which multiply beyond samples",
 ["ron/text.hpp", "ron/text-builder.cc", "ron/op.hpp", "ron/frames.hpp", "ron/encdec.hpp"],
 [("abbreviation of ids and refs", "ron/text.hpp Builder::WriteSpec"), ("span compression", "ron/text.hpp Builder::ExtendSpan"), ("value printing", "ron/text-builder.cc")],
 [("prev_id_, prev_2_, span_size_", "compression state", "ron/text.hpp Builder")],
 ["Builder::AppendOp", "Builder::EndChunk", "Builder::Release", "Cursor::Next"])

prop("P05", "Text values survive every string encoding unchanged",
 "Every Unicode string written as a value is read back as the same sequence of code points, whether it is carried raw, escaped, as UTF-8, as UTF-16 or as a per-letter span, and its reported length is its number of code points. Every accepted escape sequence decodes to its defined character, and invalid UTF-8 is reported as an error and not turned into other characters.",
 ["inputs"], "every Unicode scalar value but NUL (exhaustively) and random strings mixing ASCII, controls, quotes, backslashes, 2-, 3- and 4-byte characters and every escape form",
 "the tests use a handful of strings, none outside the basic plane; 1.1 million code points in several encodings are out of reach of samples",
 ["ron/encdec.hpp", "ron/cp-parser.cc", "ron/utf8-parser.cc", "ron/text.cc", "ron/frames.hpp", "ron/op.hpp", "ragel/utf8-grammar.rl"],
 [("UTF-8/escape writers", "ron/encdec.hpp utf8append, utf8esc_append"), ("UTF-16 writer and reader", "ron/encdec.hpp utf16append, utf16read"), ("code point parser", "ron/cp-parser.cc"), ("UTF-8 decoder", "ron/utf8-parser.cc ParseUtf8")],
 [("string atom cursor", "remaining range, current code point, remaining count", "ron/uuid.hpp Atom")],
 ["ReadString", "ReadString16", "GetString", "NextCodepoint", "ParseUtf8"])

prop("P06", "Numbers are preserved exactly or rejected, never altered",
 "Every integer literal within the signed 64-bit range is read as exactly that integer, in any legal spelling of up to 19 digits, signed or not, and every longer or greater literal is rejected with an error, like over-long float literals and identifier words. Every accepted float literal is read as the nearest double, and every finite double written is read back bit-for-bit as a float; nothing is ever truncated or wrapped.",
 ["inputs"], "all integer and float literals; boundary-dense around every power of ten and of two and around the 64-bit and length limits",
 "the tests try four boundary integers and a few floats; off-by-one in limits and silent truncation only show at values nobody lists",
 ["ron/text.cc", "ron/text-builder.cc", "ron/text-parser.cc", "ron/text.hpp", "ragel/text-grammar.rl"],
 [("integer limit check", "ron/text.cc int_too_big"), ("integer and float parsing", "ron/text.cc ParseInteger, ParseFloat"), ("printing", "ron/text-builder.cc WriteInt, WriteFloat")],
 [], ["Cursor::atom", "Cursor::Next status", "Builder::AppendOp"])

prop("P07", "Merging last-write-wins and log-like replicas converges without loss",
 "Merging any set of replica states or patches of a last-write-wins, yarn, or matrix object yields exactly the union of their ops in id order, each op once, values unchanged; metadata records merge to the one with the greatest reference per id. The result is the same for every order, grouping, repetition and overlap of the inputs, so replicas that received the same ops by any route hold equal states.",
 ["inputs", "histories"], "all op sets, all ways of distributing them over any number of overlapping id-ordered frames, all merge trees",
 "the tests merge two or three fixed frames once; convergence is a claim over all partitions, orders and groupings",
 ["rdt/merge.hpp", "rdt/lww.hpp", "rdt/meta.hpp", "rdt/mx.hpp", "rdt/rdt.hpp"],
 [("heap of cursors with duplicate skipping", "rdt/merge.hpp MergeCursor"), ("dispatch by data type", "rdt/rdt.hpp MasterRDT::Merge")],
 [("heap", "cursors ordered by current op id", "rdt/merge.hpp cursors_")],
 ["MergeFrames", "MergeCursors", "MergeStrings", "MasterRDT::Merge"])

prop("P08", "A max register always holds the greatest value written",
 "Merging any set of states of a max register keeps the object's creation op and exactly one write: one carrying the greatest value among all inputs, under one fixed total order of values. Identifiers, integers, strings and floats compare in their natural orders. The surviving write does not depend on the order, grouping or repetition of the inputs.",
 ["inputs", "histories"], "all sets of writes (integers of both signs, identifiers, ties), all partitions, orders and merge groupings",
 "the tests merge three fixed frames in one order",
 ["rdt/max.hpp", "rdt/rdt.hpp"],
 [("scan for the maximum", "rdt/max.hpp MaxRDT::Merge")],
 [], ["MergeFrames", "MasterRDT::Merge"])

prop("P09", "Merging causal trees yields one canonical order on every replica",
 "Merging a causal tree (collaborative array) with any patches or overlapping states yields every op exactly once in the canonical order: each op is preceded by the op it references, and sibling subtrees appear latest first. The result is independent of input order, duplication and grouping, and a patch whose parent is missing is reported as a causality break and never silently dropped or misplaced.",
 ["inputs", "histories"], "all causal trees, all splits into states and chain patches of up to the supported number of inputs, all arrival orders and merge trees, with and without missing parents",
 "the tests merge three tiny fixed trees",
 ["rdt/rga.hpp", "rdt/merge.hpp", "rdt/rdt.hpp"],
 [("attach inputs on reaching their reference", "rdt/rga.hpp RGArrayRDT::Merge"), ("greater-id-first heap", "rdt/rga.hpp less_than")],
 [("attached-inputs mask", "which inputs have been woven in", "rdt/rga.hpp added")],
 ["MergeFrames", "MergeCursors"])

prop("P10", "Visibility of array elements follows removals and undos exactly",
 "Scanning any well-formed causal tree marks as visible exactly the inserted elements that are not removed, where removals and undos reach as many levels up as their chain length and undone removals do not count, and marks all non-element ops as invisible. Malformed trees (broken causality, bad event ids, wrong type) are refused with an error, and no scan reads or writes outside its own bookkeeping.",
 ["inputs"], "all causal trees with insertions, removal chains, undo chains and foreign subtrees, of any shape and depth; plus arbitrary op sequences",
 "the tests scan five small fixed trees; the rules interact with tree depth and chain lengths, and the project's own TODO suspects a memory bug here",
 ["rdt/rga.hpp", "ron/inc_stack.hpp"],
 [("tombstone state machine", "rdt/rga.hpp ScanRGA"), ("run-length stack", "ron/inc_stack.hpp")],
 [("path/kills/positions stacks, ceilings", "open ancestors and pending kills", "rdt/rga.hpp ScanRGA")],
 ["ScanRGA"])

prop("P11", "An object's log replays to its state, at every version",
 "Splitting an object's log into chains loses, duplicates and reorders no op, each chain being a maximal run of ops that reference their predecessor. Replaying a log yields the same state as merging its ops, and replaying it up to any version in the log yields exactly the state of the log's ops up to and including that version: nothing later, nothing missing.",
 ["inputs", "histories"], "all causally ordered logs of every data type and every cutoff within them",
 "the tests replay two fixed logs and one cutoff",
 ["rdt/rdt.hpp", "rdt/rga.hpp", "rdt/lww.hpp"],
 [("chain splitter with cutoff", "rdt/rdt.hpp SplitLogIntoChains"), ("log replay", "rdt/rdt.hpp ObjectLogIntoState")],
 [], ["SplitLogIntoChains", "ObjectLogToState"])

prop("P12", "Splitting a stream into frames loses nothing and respects boundaries",
 "A byte stream of concatenated frames, each ended by the frame terminator, splits into exactly those frames in order: every op of the stream is found in exactly one part, in order, with the same values. No part is invented for trailing whitespace, and splitting an unterminated or empty stream does not lose the rest or crash.",
 ["inputs"], "all sequences of frames, with any whitespace between them, including strings that contain the terminator's characters",
 "the tests split one fixed stream",
 ["ron/text.cc", "ron/text.hpp", "ron/const.hpp"],
 [("terminator search", "ron/text.cc TextFrame::Split")],
 [], ["TextFrame::Split"])

prop("P13", "Op hashes identify content and history, independent of spelling",
 "The Merkle hash of an op depends on exactly its id, reference, value types and values and the hashes of its predecessor and its referenced op: the same op hashes the same in every spelling, frame and position, and a change in any one of those inputs changes the hash. Hashes follow the published construction bit for bit, print to hexadecimal and base64 text that parses back to an equal hash, and a partially known hash matches exactly the hashes sharing its known bits.",
 ["inputs"], "all ops, all spellings, all single-field perturbations, all hash values and all prefix lengths",
 "the tests hash three fixed ops; the hash serialization test fails on the pinned commit",
 ["ron/hash.hpp", "ron/hash.cc", "ron/encdec.hpp", "ron/opmeta.hpp"],
 [("canonical byte stream of an op", "ron/hash.hpp WriteOpHashable"), ("base64/hex codecs", "ron/encdec.hpp encode, decode"), ("chain metadata", "ron/opmeta.hpp OpMeta")],
 [("known_bits_", "length of the known prefix", "ron/hash.hpp SHA2")],
 ["SHA2::OpMerkleHash", "SHA2::hex/base64/Parse*", "SHA2::matches", "OpMeta::Next"])

prop("P14", "Database keys are unique, reversible and sort by type, origin, time",
 "Every pair of a data form and an event identifier maps to a distinct fixed-size key from which both are recovered, and the byte order of stored keys equals ordering by form, then origin, then value. Every known form number and form name map to each other one to one, and unknown numbers and names map to the documented error and default values without reading outside the tables.",
 ["inputs"], "all 2^128 keys: boundary-dense identifiers, all 256 form numbers exhaustively, all name identifiers near known names",
 "no existing test compares key orders or decodes a key; the form table is never probed outside its known entries",
 ["db/key.hpp", "db/key.cc", "ron/form.hpp", "db/const.hpp"],
 [("bit packing", "db/key.hpp Key"), ("form tables", "ron/form.hpp FORMS, UUID2FORM")],
 [("bits", "form(8) origin(60) value(60)", "db/key.hpp Key::bits")],
 ["Key", "form2uuid", "uuid2form", "uuid2map"])

prop("P15", "The store returns the merge of everything written, in key order",
 "After any history of single and batch writes, reads, compactions, closes and reopens, reading a key returns the merge of all frames written to it under its data type's rules, and a never-written key reads as empty. Iteration visits every written key exactly once in key order with the same merged values, seeking lands on the nearest key in the requested direction or the end, and operations on a closed store or on the reserved end key report an error and change nothing.",
 ["histories", "inputs"], "all operation histories over colliding keys of every data type, with any batching, flush and compaction points and reopenings",
 "the tests write at most four records to one fresh store and never compact, reopen or check order against a model",
 ["db/rocks_store.cc", "db/rocks_store.hpp", "db/key.hpp", "rdt/rdt.hpp"],
 [("RDT merge operator, full and partial", "db/rocks_store.cc RDTMerge"), ("iterator", "db/rocks_store.cc Iterator"), ("write batch", "db/rocks_store.cc Write(Records)")],
 [("column family records", "one merged frame per key", "db/rocks_store.cc")],
 ["RocksDBStore::Read/Write/Iterator/Close"])

prop("P16", "Acknowledged writes survive a crash; batches are all or nothing",
 "After the process is killed at any instant, reopening succeeds and every write acknowledged before the kill is present, no write that was never issued appears, and the surviving writes form a prefix of the issue order. A batch is never partially visible, before or after the crash.",
 ["crash_points", "histories"], "kills at arbitrary points of single and batch write workloads, at every write-ahead-log write call, and log files torn at arbitrary byte offsets",
 "the tests never kill a process nor reopen a store after an unclean stop",
 ["db/rocks_store.cc", "db/rocks_store.hpp"],
 [("write-ahead log and atomic write batch", "db/rocks_store.cc Write"), ("open of all column families", "db/rocks_store.cc OpenAll")],
 [], ["RocksDBStore::Write", "RocksDBStore::OpenAll"])

prop("P17", "Branches are isolated from each other and all return on reopening",
 "A write to one branch is never visible in another, whatever the keys and however branches are created, written, dropped and reopened in between. Reopening a database brings back exactly the branches that exist, each under its own identifier with its own data; a dropped branch is gone, together with its data, and dropping it leaves the others intact.",
 ["histories"], "all histories of creating, writing, dropping, closing and reopening branches with arbitrary branch identifiers",
 "the tests create two branches once, write one record each and never drop or name-collide",
 ["db/rocks_store.cc", "db/rocks_store.hpp"],
 [("one column family per branch", "db/rocks_store.cc Create, OpenAll, Drop")],
 [("column family name", "the branch identifier's text", "db/rocks_store.cc")],
 ["RocksDBStore::Create/OpenAll/Drop"])

prop("P18", "In-memory and overlay stores behave like the persistent store",
 "The in-memory store answers every history of writes, reads and iterations as the same model as the persistent store does, and reading or iterating never changes what is observed. A store overlaid on another one reads and iterates as the merge of both, in key order, with new single writes going to the overlay only.",
 ["histories"], "all operation histories over colliding keys, with interleaved reads, seeks in both directions and iterator steps",
 "these stores' tests need a library that is not available here, so nothing exercises them at all",
 ["db/mem_store.hpp", "db/joined_store.hpp"],
 [("lazy merge on read", "db/mem_store.hpp Read, Iterator"), ("two-way merge iterator", "db/joined_store.hpp Iterator")],
 [("multimap of unmerged frames", "pending changes by key", "db/mem_store.hpp state_")],
 ["InMemoryStore", "JoinedStore"])

prop("P19", "A replica applies causally consistent changes atomically, in order",
 "A branch of a replica accepts a frame of events exactly if the frame is well-formed and every event is newer than its author's last event there, refers to an older known event or to the type of a new object, and every author starts with one yarn event; a rejected frame or an unsaved commit leaves the stored state unchanged. Every object, every past version of it, and its log read as the replay of the accepted events that belong to it, branches are independent of one another except that a fork starts with a copy, a branch's tip is its own author's last event, events written without ids are stamped in order with new ids of that author, clock readings never repeat or go back and exceed every event and name this replica has stamped and every event it has accepted since it was opened, and branches, tips, names and the active branch are the same after reopening.",
 ["histories", "inputs"], "all histories of valid, stale, dangling and malformed event frames from several authors on several branches, with queries, unsaved commits, forks, drops and reopenings in between",
 "the replica is not even compiled by the buildable part of the test suite",
 ["db/replica.cc", "db/replica.hpp", "ron/opmeta.hpp", "db/joined_store.hpp", "db/mem_store.hpp"],
 [("causality checks", "db/replica.cc Commit::SaveChain, CheckEventSanity"), ("single-batch commit", "db/replica.cc Commit::Save"), ("monotone clock", "db/replica.cc Replica::Now, See")],
 [("tip per branch", "last committed event", "db/rocks_store.hpp tip")],
 ["Replica::Receive", "Replica::Now", "Commit::Read"])

prop("P20", "Concurrent readers and writers of shared data never race",
 "Parsing, comparing, hashing and merging shared immutable frames, creating identifiers and timestamps, and reading and writing one open store from many threads involve no data race, and their results equal those of some sequential execution: every acknowledged write is in the final merged state exactly once and a thread always reads its own writes.",
 ["schedules"], "all interleavings of several threads running mixed workloads over shared frames and a shared store",
 "every existing test is single-threaded",
 ["ron/uuid.cc", "ron/text.hpp", "db/rocks_store.cc", "rdt/rdt.hpp"],
 [("stateless reducers and cursors over const data", "rdt/rdt.hpp, ron/text.hpp"), ("commutative merge writes", "db/rocks_store.cc RDTMerge")],
 [], ["RocksDBStore::Read/Write", "Cursor", "Uuid::Now/HybridTime"])

prop("P21", "Timestamps are unique to their instant and sort chronologically",
 "The timestamp of every representable calendar instant (from 2010 on, to 100-nanosecond resolution) encodes that instant recoverably, field by field, and later instants always get greater timestamps; instants within one resolution step get the same one. Timestamps fit their 60 bits, so they are valid identifier values.",
 ["inputs"], "all instants 2010-2350: every day, dense around every calendar boundary, random elsewhere, whatever the local time zone",
 "no existing test checks an encoded time",
 ["ron/uuid.cc", "ron/uuid.hpp"],
 [("packed calendar fields", "ron/uuid.cc Uuid::HybridTime")],
 [], ["Uuid::HybridTime", "Uuid::Now"])

prop("P22", "Compressed id stacks behave like plain stacks",
 "A run-length-compressed stack of identifiers or numbers, after any history of pushes and pops, has the same size, first, last and iterated contents as a plain stack. Iterators stepped one by one, by any stride, or run by run reach the same elements, and consecutive values occupy one run.",
 ["histories"], "all push/pop histories mixing consecutive and jumping values, and all iterator walks over them",
 "no existing test touches iteration or popping at all",
 ["ron/inc_stack.hpp"],
 [("spans of consecutive values", "ron/inc_stack.hpp inc_stack")],
 [("spans_", "runs of consecutive values", "ron/inc_stack.hpp")],
 ["inc_stack"])

prop("P23", "An object view shows the latest write of every field, and GC keeps it",
 "The field-by-field view of a last-write-wins object returns, for every key, the value and type of the latest write to that key, and nothing for keys never written. Garbage-collecting an object's state keeps exactly its header and the latest write per key, in order and unchanged, and therefore changes no field of the view.",
 ["inputs", "histories"], "all write histories over colliding keys of every value type",
 "both existing tests of this fail on the pinned commit",
 ["rdt/lww.hpp", "rdt/lww_obj.hpp", "ron/frames.hpp"],
 [("last-writer scan", "rdt/lww.hpp GC"), ("field index", "rdt/lww_obj.hpp LWWObject::Update")],
 [("vals_", "latest atom per key", "rdt/lww_obj.hpp")],
 ["LWWObject", "LastWriteWinsRDT::GC"])

prop("P24", "A replica survives crashes whole",
 "If the process dies at any instant while a replica receives frames, creates or forks branches, names things or switches the active branch, including in the middle of a write or of a recovery, or if a file system call fails, then the replica opens again and is exactly in a state between the steps it has answered for and the one under way: everything acknowledged (events, objects, logs, branches, tips, names, the active branch) reads as before, and the step under way is there entirely or not at all (a fork with all it copies, a frame with all its events). The recovered replica accepts new events and forks like any other.",
 ["crash_points", "histories"], "all histories of frames, branch creations, forks, names and hops over several branches; a process death at every file system call and instant, during recovery too, and failing calls (process crashes, not power loss)",
 "no test kills a replica, and the replica is not even compiled by the buildable part of the test suite",
 ["db/replica.cc", "db/replica.hpp", "db/rocks_store.cc"],
 [("single-batch commit", "db/replica.cc Commit::Save"), ("branches listed and opened at start, the unfinished dropped", "db/replica.cc Replica::Open"), ("fork copies before its tip is written", "db/replica.cc ForkBranch")],
 [("branches_, tips", "open branches and their last own events", "db/replica.hpp")],
 ["Replica::Open", "Replica::ReceiveFrame", "Replica::CreateBranch", "Replica::ForkBranch"])

prop("P25", "No request crashes a replica or leaves traces when refused",
 "Whatever frame a replica is sent, for a known branch or not, it answers with a status and lives on. A request that is refused, or that only asks, changes nothing stored in any branch; one that is accepted changes its own branch only; every malformed frame is refused; and after any sequence of requests every stored record can be read, and reads the same after reopening.",
 ["inputs", "histories"], "all sequences of frames: malformed, mistyped, stale, of unknown types, ids and terminators, mixed with valid ones",
 "the replica is not even compiled by the buildable part of the test suite",
 ["db/replica.cc", "db/replica.hpp", "db/map/txt.hpp", "ron/opmeta.hpp", "db/joined_store.hpp"],
 [("the frame is read through before any of it is applied", "db/replica.cc Replica::Receive"), ("dispatch by id version, form and terminator", "db/replica.cc Receive, ReceiveQuery, ReceiveWrites, ReceiveMapQuery, ReceiveMapWrites"), ("one batch at the end", "db/replica.cc Commit::Save")],
 [("mem_, join_", "the unsaved overlay of a commit", "db/replica.hpp Commit")],
 ["Replica::Receive", "Replica::ReceiveFrame"])

prop("P26", "An array read as text is its visible characters in order",
 "A text query for an array object of a branch is answered with one string: the string values of the elements that are visible (not removed, or with every removal undone), in the order of the causal tree, in full and unchanged, however the array was built, split into frames or compressed; elements that are not strings, removals and undos contribute nothing. Asking does not change anything, and several queries in a frame are each answered, in order.",
 ["inputs", "histories"], "all editing histories of arrays by several authors, and all mixtures of queries",
 "the test that reads texts is not compiled by the buildable part of the test suite and holds single characters only",
 ["db/map/txt.hpp", "db/replica.cc", "rdt/rga.hpp", "ron/frames.hpp"],
 [("walk of the tree beside its tombstones", "db/map/txt.hpp TxtMapper::Read"), ("visibility", "rdt/rga.hpp ScanRGA"), ("text queries by derived id", "db/replica.cc Commit::ReceiveMapQuery")],
 [("tombs", "visibility by position", "db/map/txt.hpp")],
 ["TxtMapper::Read", "Replica::ReceiveFrame"])

prop("P27", "The hash recorded of an event identifies its whole history",
 "The record a replica keeps of an event names the event's object and type and carries the Merkle hash of the event: of its content, the hash of its author's previous event (zero for the first) and the hash of the event it refers to (or of the type's name). It is the same on every branch and replica that accepted the same events, whatever frames they came in, whether stamped or received, before and after reopening or forking.",
 ["histories", "inputs"], "all accepted histories, in all splits into frames and over reopenings and forks",
 "the replica is not even compiled by the buildable part of the test suite",
 ["db/replica.cc", "ron/opmeta.hpp", "ron/hash.hpp"],
 [("recursion over previous and referenced event", "ron/opmeta.hpp OpMeta::Next"), ("records of chain heads, saved and loaded", "ron/opmeta.hpp Save, Load; db/replica.cc FindOpMeta"), ("head record written with the chain", "db/replica.cc SaveChain")],
 [("OpMeta::hash", "Merkle hash of the event", "ron/opmeta.hpp")],
 ["Replica::ReceiveFrame", "Commit::SaveChain"])

prop("P28", "What cannot be read is reported, never misread",
 "When the storage under an open or opening database fails to read, returns altered bytes or ends early, or when table files are damaged, cut or lost, every operation either succeeds with the right result or returns an error: reads, seeks, iteration, joined stores, object states, logs, past versions, names, queries, frames and forks. A missing answer is never taken for an empty one; nothing invalid is accepted because its grounds could not be read, and nothing is written in part. A database or replica that fails to open is closed. Once the storage reads well again, the database is exactly as acknowledged.",
 ["faults", "histories"], "all histories with a failing, altered or short read at every point, and all damages to table files",
 "no test damages a file or has a read fail",
 ["db/rocks_store.cc", "db/rocks_store.hpp", "db/joined_store.hpp", "db/replica.cc", "db/replica.hpp"],
 [("statuses of reads and iterators", "db/rocks_store.cc Read, Iterator"), ("errors of a joined iterator", "db/joined_store.hpp Iterator"), ("objects read before they are written on", "db/replica.cc Commit"), ("branches copied by a fork", "db/replica.cc ForkBranch"), ("open, or closed again", "db/replica.cc Open; db/rocks_store.cc OpenAll")],
 [("Status of a read", "an error is not an empty record", "db/rocks_store.cc")],
 ["RocksDBStore::Read", "RocksDBStore::Iterator", "Replica::Open", "Replica::ReceiveFrame", "Replica::ForkBranch"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
