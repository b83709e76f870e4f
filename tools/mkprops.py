#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

HOOK = "build tag 'verif': block size, write-buffer size and compaction threshold become variables (verif.go)"

prop("C01", "Latest-state reads agree with a map",
 "After any history of blocks (inserts, overwrites and deletions of keys, several writes to one key in a block, keys prepared but not written), reading a key returns the value last written to it, or nothing if it was never written or was last deleted. A full scan yields exactly the live pairs in descending key order, and the active count equals the live keys plus the two guards. The built-in consistency checks never fail.",
 ["inputs","histories"], "all block histories over 8-byte keys strictly between the guards, non-nil values, with any prepare/write pattern allowed by the API",
 "moeingads_test runs one fixed list of 16 keys; store/fuzz needs RANDFILE and is skipped. Neighbouring inserts+deletes in one block, shard and index-channel boundaries and set-then-delete are never met.",
 ["moeingads.go","indextree/indextree.go","datatree/tree.go"],
 [("hot-entry maps filled by PrepareForUpdate/PrepareForDeletion, sorted and applied in update()","moeingads.go"),("in-memory B-tree from key to position","indextree/indextree.go")],
 [("k2heMap/nkSet","entries touched by the block, and next keys","moeingads.go MoeingADS")],
 ["GetEntry","ScanAll","ActiveCount","CheckConsistency"], HOOK)
prop("C02", "Entries form an ordered next-key chain with true metadata",
 "After every block, following next-keys from the start guard visits every live key once in ascending order and ends at the end guard, so an entry proves the absence of all keys between it and its next key. Each live entry carries the height of the block that last set it or changed its next key, the height of the version it replaced (0 if it was newly inserted), and a serial number that no other live entry of its shard has and that grows whenever the entry is rewritten.",
 ["inputs","histories"], "all block histories as in C01, including inserts and deletes of adjacent keys in one block, with compaction and reopening in between",
 "CheckConsistency is run in one scenario only; heights, last-heights and serial numbers are not checked by any test.",
 ["moeingads.go"], [("NextKey fix-up of hot entries (getPrev/getNext) and IsTouchedByNext","moeingads.go update")], None, ["GetEntry of every live key and of the guards"], HOOK)
prop("C03", "The root hash is a function of the block history only",
 "Two instances that apply the same sequence of blocks report the same root hash after every block, whatever the order in which the writes of a block are prepared and issued, the number of goroutines issuing them, the file block and buffer sizes, whether history is queryable, extra keys prepared but not written, failed lookups, and when either was closed, reopened or pruned. A block without effective writes leaves the root unchanged; a block that inserts, changes or deletes a key changes it.",
 ["schedules","histories","configurations"], "all pairs of executions of one block history that differ only in order, parallelism, configuration, reopening and pruning",
 "No test runs the same history twice; replicated state machines depend on it for consensus.",
 ["moeingads.go","datatree/tree.go","metadb/metadb.go"], [("sorting of hot entries before serial numbers are assigned; per-shard sequential append","moeingads.go update"),("Merkle synchronisation","datatree/tree.go")], None, ["GetRootHash"], HOOK)
prop("C04", "Proofs verify, and verify only the current state",
 "For every live key the returned entry bytes and proof bytes pass an independent verification: the entry's hash is the leaf, the path leads to its shard's root, the entry's active bit is set, the eight shard roots hash to the reported root hash, and the decoded entry holds the current key, value and next key. Changing any byte of the proof or entry makes verification fail, and asking for a proof of an absent key is an error.",
 ["inputs","histories"], "all histories (with compaction, pruning, reopening), all live and absent keys, all single-byte changes of proof and entry",
 "datatree/proof_test checks a few fixed serial numbers with the code's own verifier; no test checks a proof from the top-level API or against the reported root.",
 ["moeingads.go","datatree/proof.go","datatree/twigmtfile.go"], [("GetProof: path from memory, from the twig file and from upper nodes","datatree/proof.go")], None, ["GetProof","GetRootHash"], HOOK)
prop("C05", "A clean close and reopen changes nothing",
 "Closing after a finished block and opening the directory again, any number of times and at any point, yields the same height, root hash, live pairs, entry metadata, proofs and active count, and every later block gives the same results as if it had not been closed. With history enabled, historical answers are also unchanged.",
 ["histories","configurations"], "all histories with reopening after any block, including before and after compaction, at file-block boundaries and with history switched on",
 "The reload tests cover one tree without file crossing; the full database is never reopened by a test that runs here.",
 ["moeingads.go","datatree/recover.go","metadb/metadb.go"], [("RecoverTree rebuilds twigs, upper nodes and index by scanning entries from the oldest active twig","datatree/recover.go")], None, ["all read APIs after NewMoeingADS on an existing directory"], HOOK)
prop("C06", "A crash loses no finished block and exposes no partial one",
 "If the process or machine stops at any moment after creation returned, reopening succeeds without manual repair and shows exactly the state after some block N, with N at least the last block whose end-of-block call had returned, and at most the one in progress: the same pairs, root hash, proofs and metadata. Re-executing the later blocks then gives the same root hashes as an uninterrupted run. Data not yet synced to disk may be lost in any amount at the crash.",
 ["crash_points","histories"], "all crash points between any two file operations of block execution, compaction and reopening, with any part of the unsynced data surviving",
 "No test interrupts a write; fuzz drivers reload only after a clean flush.",
 ["moeingads.go","datatree/hpfile.go","datatree/recover.go","indextree/rocks_db.go"], [("files are flushed and synced before one synchronous metadata batch is written; recovery truncates files to the recorded sizes","moeingads.go EndWrite")], None, ["reopened state"], HOOK)
prop("C07", "Compaction is invisible to readers and bounds retained entries",
 "Moving live entries out of old twigs never changes what any read, scan, historical query or proof verification returns, loses or duplicates a key, or brings back a deleted one, also when the moved key is written or deleted in the same or a following block. Under continued updates of a bounded live set, entries in retired twigs become prunable, so the space kept after pruning stays bounded.",
 ["inputs","histories"], "all histories long enough to trigger compaction, with any mix of hot and cold keys across shards",
 "Compaction needs a million active entries with the default constants; no test reaches it.",
 ["moeingads.go","datatree/entryfile.go","datatree/tree.go"], [("compactForShard re-appends active entries of the oldest twig with new serial numbers","moeingads.go")], None, ["read APIs; size of the entry files after pruning"], HOOK)
prop("C08", "Pruning never affects the latest state",
 "Pruning at any height, any number of times, leaves the root hash, every live pair, the scan, entry metadata and every live key's proof unchanged, and the database keeps accepting blocks with the same root hashes as an instance that was never pruned. It can be closed and reopened right after pruning and at any later time.",
 ["inputs","histories"], "all histories with pruning at arbitrary heights, followed by reopening, further blocks and compaction",
 "tree_test prunes one tree once; pruning the whole database and reopening it is never tested.",
 ["moeingads.go","datatree/tree.go","datatree/hpfile.go","metadb/metadb.go"], [("PruneBeforeHeight keeps edge nodes and deletes whole files before the boundary","moeingads.go, datatree/tree.go PruneTwigs")], None, ["read APIs after PruneBeforeHeight and reopen"], HOOK)
prop("C09", "Historical queries return the value as of that height",
 "With history enabled and nothing pruned, querying a key at any past or current block height returns the entry that was current when that height's block finished, or nothing if the key did not exist then; heights between two blocks answer like the earlier one. This holds after later overwrites, deletions, re-insertions, compaction and reopening.",
 ["inputs","histories"], "all histories, keys and heights from 0 on, never-written keys and neighbours of written keys included",
 "store/fuzzhis needs RANDFILE and is skipped; indextree tests query a handful of heights without values.",
 ["moeingads.go","indextree/indextree.go"], [("versioned index records key||height in RocksDB, searched backwards","indextree/indextree.go GetAtHeight")], None, ["GetEntryAtHeight"], HOOK)
prop("C10", "Pruning keeps recent history and never invents old answers",
 "After pruning before a height, a query above that height for a key whose version current at the queried height was written at or after the prune height still returns exactly that version, and a key that had been deleted at or after the prune height and not re-inserted is reported absent. In the same session queries at or below the pruned height are answered as absent. Reading the latest state stays exact.",
 ["inputs","histories"], "all histories with history enabled and pruning at arbitrary heights, all keys and heights above the prune height",
 "No test combines pruning and historical queries.",
 ["moeingads.go","indextree/indextree.go","indextree/rocks_db.go"], [("prune height guards queries and filters index records during RocksDB compaction","indextree/rocks_db.go")], None, ["GetEntryAtHeight after PruneBeforeHeight"], HOOK)
prop("S01", "Store layers are transparent write buffers",
 "Reads through a trunk store see its buffered writes over the root store, and nothing reaches the root before write-back; after write-back the root and database hold exactly the net effect, while a discarded trunk changes nothing. Caching in the root store, with any cacheable-key rule and cache size, never changes an answer.",
 ["inputs","histories","configurations"], "all sequences of trunks, nested updates, write-backs and discards, with any cacheability predicate and cache limit",
 "trunk_test checks one scripted scenario with a mock root; cache eviction needs a million entries.",
 ["store/root.go","store/trunk.go","store/cache.go"], [("CacheStore overlay with deletion markers; write-through cache with eviction","store/trunk.go, store/root.go")], None, ["RootStore.Get","TrunkStore.Get"], "RootCacheSizeLimit as variable under the 'verif' tag")
prop("S02", "The rabbit store is an exact map for keys of any length",
 "For keys and values of any length, sets, deletes, reads and existence checks through rabbit stores behave as a map, across transactions, write-backs, discards and reopening. This holds even when short hashes of different keys collide in chains of any shape and keys in the middle of a chain are deleted, re-inserted or modified in any order, and after all keys are deleted no record remains in the base. The short keys a transaction reports cover the stored ones it used, and everything it changes is reported as changed.",
 ["inputs","histories"], "all operation sequences over key sets with and without short-hash collisions",
 "The repository's rabbit fuzz only compiles for 2-byte short keys and is skipped; with 8-byte keys no test meets a collision.",
 ["store/rabbit/rabbit.go","store/rabbit/simple_cache.go","store/rabbit/simple_multi.go"], [("pass-by counters and empty markers along the hash path","store/rabbit/rabbit.go")], None, ["RabbitStore.Get/Has/Set/Delete","RabbitStore.ScanAllShortKeys","ActiveCount of the base"], None)
prop("S03", "A rabbit store at a height reads that height's state",
 "A read-only rabbit store opened at a past height returns for every key exactly the value that key had after that block, for colliding keys too, regardless of later writes. It never modifies its parent.",
 ["inputs","histories"], "all histories written through rabbit stores with history enabled, all heights and keys",
 "store/fuzzhis is skipped without RANDFILE.",
 ["store/rabbit/simple_multi.go","store/root.go","moeingads.go"], [("historical reads through GetAtHeight","store/rabbit/simple_multi.go")], None, ["RabbitStore.Get on NewReadOnlyRabbitStoreAtHeight"], None)
prop("S04", "Parallel transactions on disjoint keys equal serial execution",
 "Transactions prepared and executed concurrently on one trunk store and written back serially, and blocks whose writes are issued from many goroutines at once while readers use the database between blocks, yield the same values, next-key chain and root hash as executing them one after another. No schedule deadlocks or crashes.",
 ["schedules","histories"], "all interleavings of concurrent prepares, reads and shard-parallel writes of one block",
 "Tests are single-threaded; the race-prone prepare phase is only driven by benchmarks.",
 ["moeingads.go","store/trunk.go","store/root.go","store/rabbit/simple_multi.go"], [("bucketed maps with locks, per-shard workers and index job channels","moeingads.go")], None, ["GetRootHash, reads"], HOOK)
prop("S05", "Replaying a trunk's exported changes reproduces the state",
 "Applying the change set exported by a trunk store to another root store at the same height gives that replica the same values and the same root hash as writing the trunk back, block after block.",
 ["inputs","histories"], "all block histories with inserts, overwrites and deletions",
 "SyncUpdateTo has no test.",
 ["store/trunk.go"], [("SyncUpdateTo prepares and writes a change set shard-parallel","store/trunk.go")], None, ["GetRootHash of both roots"], None)
prop("I01", "The in-memory B-tree is an exact ordered map",
 "Sets, put-and-get-old, deletes, gets, length, and seeks over 64-bit keys and non-negative 48-bit values agree with a sorted map, whether or not keys share their leading 16 bits or their trailing 48 bits. A seek reports equality only for a present key; iterating forward from it yields the keys at or above the target in order, iterating backward yields the target (if present) and the keys below it in descending order.",
 ["inputs","histories"], "all operation sequences on uint64 keys and values in [0,2^48)",
 "btree_test inserts a few hundred keys in one slot pattern; the differential fuzz is skipped without RANDFILE.",
 ["indextree/b/cppbtree/bigmap.h","indextree/b/cppbtree/cppbtree.cpp","indextree/b/cppbtree/btree.go","indextree/b/cppbtree/cpp-btree-1.0.1/btree.h"], [("65536 slots of compact B-trees with slot-crossing iterators","indextree/b/cppbtree/bigmap.h")], None, ["Tree and Enumerator API"], None)
prop("I02", "The index tree answers point, range and height queries exactly",
 "The index tree's point lookups, forward and backward range iteration over [start,end), active count and height queries agree with a versioned map after any sequence of write sessions. Rebuilding it from its database restores exactly the latest live records, also when the database holds other kinds of records.",
 ["inputs","histories"], "all sequences of write sessions at increasing heights, all ranges and heights",
 "indextree_test uses one scripted set of keys; the fuzz is skipped without RANDFILE.",
 ["indextree/indextree.go"], [("B-tree for the latest records, key||height records in RocksDB","indextree/indextree.go")], None, ["NVTreeMem API"], None)
prop("I03", "The key-value wrapper is an ordered map with atomic batches",
 "Puts, deletes, gets, batches and forward/reverse iteration over any [start,end) with nil bounds agree with a sorted byte-string map. A batch takes effect entirely when written and not at all before, and everything written synchronously is there after reopening. Keys and values that were handed out never change afterwards.",
 ["inputs","histories"], "all operation sequences over arbitrary byte-string keys and values",
 "The wrapper has no test of its own.",
 ["indextree/rocks_db.go"], [("gorocksdb batches and iterators with bound checks","indextree/rocks_db.go")], None, ["RocksDB wrapper API"], None)
prop("D01", "Entries survive serialization for any content",
 "An entry with any key, value, next key, heights, serial number and up to 255 deactivated serial numbers, including content that equals, contains or overlaps the magic separator, reads back identically after being written, through every read function. The stored bytes never contain the separator inside the payload, and raw-byte extraction and serial-number update agree with the decoded form.",
 ["inputs"], "all entries within the size limit",
 "entryfile_test uses a few entries with one magic occurrence.",
 ["datatree/entryfile.go"], [("magic-byte escaping with a position list","datatree/entryfile.go EntryToBytes")], None, ["EntryToBytes, EntryFile read functions"], None)
prop("D02", "The segmented file returns what was appended",
 "Every record appended reads back identically at the returned position, before or after flushing, across segment boundaries, with any buffer and segment size, until its segment is pruned or it is cut by truncation. Size, reopening, truncation to any earlier size followed by new appends, and pruning of the head behave accordingly: pruning removes only whole segments before the offset and truncation keeps everything below it.",
 ["inputs","histories","configurations"], "all sequences of append, read, flush, truncate, prune and reopen, for all legal buffer/segment sizes",
 "hpfile_test performs a handful of appends of equal size.",
 ["datatree/hpfile.go","datatree/entryfile.go"], [("segment files, append buffer, pre-reader","datatree/hpfile.go")], None, ["HPFile and EntryFile API"], None)
prop("D03", "Twig files give back every node of a finished twig",
 "For every finished twig and every node number, the node read from the twig file equals the node of the Merkle tree that was stored, also the levels that are recomputed instead of stored and nodes straddling segments, and the first-entry position reads back with its checksum verified. This holds after pruning of earlier twigs and reopening.",
 ["inputs","configurations"], "all trees, node numbers 1..4095, segment sizes, twig counts",
 "twigmtfile_test checks two twigs in one segment.",
 ["datatree/twigmtfile.go"], [("levels 1-3 are recomputed from eight leaves","datatree/twigmtfile.go")], None, ["GetHashNode, GetFirstEntryPos"], None)
prop("D04", "The tree root equals an independent Merkle computation",
 "After any sequence of appends, deactivations, twig evictions and block ends, the tree's root equals that computed from scratch from the entries' bytes and active bits by an independent implementation of the documented tree shape. A proof for any unpruned serial number, active or not, verifies against that root, shows the right active bit and matches only its own entry bytes.",
 ["inputs","histories"], "all sequences of appended entries and deactivations, up to several tens of twigs",
 "tree_test compares with values computed by the same code.",
 ["datatree/tree.go","datatree/proof.go","datatree/hasher.go"], [("incremental synchronisation of touched leaves, bits and upper nodes","datatree/tree.go syncMT")], None, ["EndBlock, GetProof"], None)
prop("D05", "A tree recovered from its files equals the live tree",
 "Recovering a tree from its files, edge nodes and recorded sizes after any block end gives the same root, active bits, proofs and entry positions as the live tree, for any number of evicted and pruned twigs, and any trailing bytes beyond the recorded sizes are discarded. The recovered tree then produces the same roots as the live one for all further operations.",
 ["inputs","histories","crash_points"], "all histories of appends, deactivations, evictions and prunings, recovered after any block",
 "load_recover_test recovers one history with one eviction pattern.",
 ["datatree/recover.go","datatree/tree.go"], [("RecoverTree","datatree/recover.go")], None, ["RecoverTree and all tree reads"], None)
prop("D06", "Saved in-memory tree state loads back or is rejected",
 "Loading a tree saved to disk gives the same twigs, nodes, youngest-twig tree, proofs and further behaviour as the saved one. If any byte of a saved twig, node or youngest-twig record is altered or a record is cut short, loading reports an error instead of accepting the damaged record.",
 ["inputs","fault_sequences"], "all trees; all single-byte changes and truncations inside records of the three saved files",
 "load_recover_test loads only undamaged files.",
 ["datatree/load.go"], [("32-bit checksum per record","datatree/load.go")], None, ["LoadTree, LoadTwigFromFile"], None)
prop("D07", "Proof decoding is total and proof encoding round-trips",
 "Decoding any byte string as a proof either fails with an error or yields a proof whose checking returns a verdict; it never crashes. Encoding a decoded proof gives back the same bytes, and a proof checked as incomplete is accepted only if all its intermediate hashes agree.",
 ["inputs"], "all byte strings of any length, and all mutations of valid proofs",
 "proof_test decodes only proofs produced by the encoder.",
 ["datatree/proof.go"], [("BytesToProofPath, ProofPath.Check","datatree/proof.go")], None, ["BytesToProofPath, Check, ToBytes"], None)
prop("M01", "Committed metadata is exactly what a reload returns",
 "After a commit and batch write, reloading gives back every per-shard size, root hash, serial-number counter, oldest twig, last-pruned twig, edge nodes, twig heights and the block height exactly as last set, with shards independent of each other, and values set after the last committed batch are not visible. The youngest twig and twig heights follow from the serial-number counter and the height at which each twig was started.",
 ["inputs","histories"], "all sequences of setters, commits, batch writes and reloads over eight shards",
 "metadb_test sets each field once.",
 ["metadb/metadb.go"], [("little-endian fields under per-shard keys in one batch","metadb/metadb.go")], None, ["MetaDB getters after ReloadFromKVDB"], None)
prop("X01", "In-memory stand-ins behave like the real parts",
 "The mock data tree, mock index tree and mock root store give the same answers as the real ones for the operations they implement: entries read back, active bits, compaction scan of a twig, lookups, range iteration, and root-store reads and writes.",
 ["inputs","histories"], "all operation sequences within what both implement",
 "The mocks are test helpers of the skipped fuzz drivers and are never compared with the real parts.",
 ["datatree/mock_datatree.go","indextree/mock_indextree.go","store/mock_root.go"], [("in-memory replacements used by NewMoeingADS4Mock and tests","moeingads.go")], None, ["types.DataTree, types.IndexTree, RootStoreI"], None)
prop("R01", "Working with the database and closing it leaves nothing behind",
 "Reads, proofs, scans, prepared and executed blocks, pruning and reopening do not accumulate resources: memory outside Go's heap and the number of goroutines do not grow with the number of operations, and a data file removed by pruning is not kept open. After closing a database no file of its directory is open and no goroutine of it runs, and opening and closing it again and again does not add up memory.",
 ["inputs","histories"], "all histories of blocks, reads, iterations, pruning, closing and reopening",
 "No test looks at memory, file handles or goroutines; a leaked iterator costs bytes per operation.",
 ["moeingads.go","indextree/rocks_db.go","indextree/indextree.go","datatree/hpfile.go"], [("iterators, batches, options and files are released","indextree/rocks_db.go, datatree/hpfile.go")], None, ["open files of the process, goroutines, native memory in use"], None)
prop("E01", "Damaged files are noticed",
 "If stored entry or twig files of a closed database are altered in one place (bytes of a record, its length, heights, values or deactivated serial numbers, a record replaced by an older one, a range of zeros, twig roots and positions, missing or cut segments, files of two shards exchanged), opening it either fails or yields exactly the state, key chain and root hash it had, and later blocks give the roots they would have given. A proof asked for while a stored byte is altered either is an error or verifies, and once the byte is restored it verifies.",
 ["inputs","histories","fault_sequences"], "all histories, followed by any single alteration of the entry and twig files",
 "No test alters a stored file; the root comparison, length checks and checksums on the recovery path are never seen to refuse.",
 ["moeingads.go","datatree/recover.go","datatree/entryfile.go","datatree/twigmtfile.go","datatree/hpfile.go"], [("root hashes recorded in the metadata are compared with the recovered ones","moeingads.go CheckHashes"),("magic bytes, lengths, checksums","datatree/entryfile.go, datatree/twigmtfile.go")], None, ["opening a database", "GetProof"], None)
prop("G01", "Misuse is refused and changes nothing",
 "Calls which the interfaces forbid are refused by a panic or an error: setting an unprepared key, reads, proofs and prepares during a block, writes outside a block, short keys, writing back read-only trunks and rabbits, using a trunk that is being written back or a closed rabbit, nil values and empty keys, using an ended iterator, deleting absent index keys, using segmented files beyond their content, reading nodes and proofs of pruned or unwritten twigs. A refused call has no effect: contents, key chain, root hashes and everything done later are those of the same history without it.",
 ["inputs","histories"], "all histories with forbidden calls inserted anywhere",
 "Tests only make permitted calls; a guard that is lost or a refusal that has already changed something is not noticed.",
 ["moeingads.go","store/root.go","store/trunk.go","store/rabbit/rabbit.go","store/mock_root.go","indextree/indextree.go","indextree/rocks_db.go","datatree/hpfile.go","datatree/twigmtfile.go","datatree/tree.go"], [("state and argument checks that panic before anything is changed","moeingads.go, store/*.go, indextree/*.go, datatree/*.go")], None, ["return values, panics, and all reads afterwards"], None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
