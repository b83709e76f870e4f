From b431c8205ee324169112d262cb92a9e66288d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 01/18] verif: size parameters are variables under the 'verif'
 build tag

---
 nodebug.go |  4 ++--
 verif.go   | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)
 create mode 100644 verif.go

diff --git a/nodebug.go b/nodebug.go
index 79d51e7..4be7277 100644
--- a/nodebug.go
+++ b/nodebug.go
@@ -1,5 +1,5 @@
-//go:build !debug
-// +build !debug
+//go:build !debug && !verif
+// +build !debug,!verif
 
 package moeingads
 
diff --git a/verif.go b/verif.go
new file mode 100644
index 0000000..8baf598
--- /dev/null
+++ b/verif.go
@@ -0,0 +1,20 @@
+//go:build verif && !debug
+// +build verif,!debug
+
+package moeingads
+
+import (
+	"github.com/smartbch/moeingads/datatree"
+)
+
+// With the 'verif' build tag these parameters are variables, such that a
+// verification harness can reach file crossing, compaction and cache eviction
+// with small histories. The default values are the same as in nodebug.go.
+var (
+	DefaultHPFileSize  int   = 1024 * 1024 * 1024
+	StartReapThres     int64 = 1000 * 1000
+	HPFileBufferSize   int   = datatree.BufferSize
+	RootCacheSizeLimit int   = 1024 * 1024
+)
+
+var DebugPanicNumber int //not used
-- 
2.43.0


From d2ca3ddc269b01a78308fb26fdee35d7ee45ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 02/18] fix: deleting a key inserted in the same block leaves
 no entry

Delete of a key that was prepared for insertion and already set in this
block appended an entry without next key, and the key stayed readable.
---
 moeingads.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moeingads.go b/moeingads.go
index 827df28..f45fa32 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -447,6 +447,10 @@ func (mads *MoeingADS) Delete(key []byte) {
 		return // delete a non-exist kv pair
 	}
 	hotEntry.Operation = types.OpDelete
+	if hotEntry.EntryPtr.SerialNum == -1 {
+		// It was inserted in the same block, so it ends up as if it had never been set
+		hotEntry.EntryPtr.Value = nil
+	}
 }
 
 func getPrev(cachedEntries []*HotEntry, i int) int {
-- 
2.43.0


From 475db1e886265b963762db102f811845a8848119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 03/18] fix: reject encoded proofs without an upper path

BytesToProofPath accepted them and Check(true) then indexed an empty slice.
---
 datatree/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..58866bc 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -49,7 +49,7 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 	pp := &ProofPath{}
 	n := len(bz) - 8
 	upperCount := n/32 - OtherNodeCount
-	if n%32 != 0 || upperCount < 0 {
+	if n%32 != 0 || upperCount <= 0 { // the upper path has one node at least
 		return nil, fmt.Errorf("Invalid byte slice length: %d", len(bz))
 	}
 	pp.UpperPath = make([]ProofNode, upperCount)
-- 
2.43.0


From 98b07abd752f2f367332425aa63e6e07098d14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 04/18] fix: keep the twig roots which recovery needs after
 pruning

RecoverTree reads the twigmt file from the last pruned twig on (rounded down
to an even ID), but PruneTwigs could have removed the file they are in.
---
 datatree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..47e4fc8 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -409,7 +409,8 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
+	// RecoverTree still needs the roots of the last pruned twig (endID-1) and of its left sibling
+	tree.twigMtFile.PruneHead((endID - 2) * TwigMtSize)
 	return tree.ReapNodes(startID, endID)
 }
 
-- 
2.43.0


From e9bd3a84f98c833b823672671077417995aed439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 05/18] fix: save the last pruned twig before removing pruned
 files

PruneBeforeHeight removed files at once, while LastPrunedTwig was only saved
by the next EndWrite: reopening after pruning, without a block in between,
looked for the removed files and failed. Now the batch with LastPrunedTwig and
the edge nodes is written first and the files are removed afterwards.
---
 datatree/mock_datatree.go |  7 +++++++
 datatree/tree.go          |  7 ++++++-
 moeingads.go              | 11 ++++++++++-
 types/types.go            |  2 ++
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..2966244 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -116,6 +116,13 @@ func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
 
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
+func (dt *MockDataTree) ReapNodes(start, end int64) []byte {
+	return nil
+}
+
 func (dt *MockDataTree) GetFileSizes() (int64, int64) {
 	return 0, 0
 }
diff --git a/datatree/tree.go b/datatree/tree.go
index 47e4fc8..094d392 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,12 +406,17 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	tree.PruneFiles(endID)
+	return tree.ReapNodes(startID, endID)
+}
+
+// Remove the files which only contain twigs before endID
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
 	// RecoverTree still needs the roots of the last pruned twig (endID-1) and of its left sibling
 	tree.twigMtFile.PruneHead((endID - 2) * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index f45fa32..7b04b0f 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -738,7 +738,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -746,7 +746,16 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	// The new LastPrunedTwig must be saved before the files are removed, such that
+	// the database can always be recovered
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		start, end := starts[shardID], ends[shardID]
+		if end > start+datatree.MinPruneCount {
+			mads.datTree[shardID].PruneFiles(end)
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..2c7b2fa 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	PruneFiles(endID int64)
+	ReapNodes(start, end int64) []byte
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0


From 8eb9a246063d84ba36e670afb043279869580b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 06/18] fix: the mock root store accepts parallel write-back

---
 store/mock_root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/mock_root.go b/store/mock_root.go
index b1201fa..f1afcea 100644
--- a/store/mock_root.go
+++ b/store/mock_root.go
@@ -11,6 +11,7 @@ import (
 type MockRootStore struct {
 	mtx                 sync.RWMutex
 	cacheStore          *CacheStore
+	writeMtx            sync.Mutex // TrunkStore writes back many shards in parallel
 	preparedForUpdate   *sync.Map
 	preparedForDeletion *sync.Map
 	isWritting          bool
@@ -101,6 +102,8 @@ func (rs *MockRootStore) Set(key, value []byte) {
 	if _, ok := rs.preparedForUpdate.Load(string(key)); !ok {
 		panic(fmt.Sprintf("not prepared %#v", key))
 	}
+	rs.writeMtx.Lock()
+	defer rs.writeMtx.Unlock()
 	rs.cacheStore.Set(key, value)
 }
 
@@ -111,6 +114,8 @@ func (rs *MockRootStore) Delete(key []byte) {
 	if _, ok := rs.preparedForDeletion.Load(string(key)); !ok {
 		panic("not prepared")
 	}
+	rs.writeMtx.Lock()
+	defer rs.writeMtx.Unlock()
 	rs.cacheStore.RealDelete(key)
 }
 
-- 
2.43.0


From ddae7d0e9c25a361e9deb623fa1cc34097ace2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 07/18] fix: a B-tree seek reports equality only for the whole
 key

---
 indextree/b/cppbtree/cppbtree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indextree/b/cppbtree/cppbtree.cpp b/indextree/b/cppbtree/cppbtree.cpp
index c881dd9..5013af5 100644
--- a/indextree/b/cppbtree/cppbtree.cpp
+++ b/indextree/b/cppbtree/cppbtree.cpp
@@ -56,7 +56,8 @@ size_t cppbtree_seek(size_t tree, uint64_t key, bool* is_equal, bool* larger_tha
 	auto k = bits48::from_uint64(key);
 	Iter* iter = new Iter();
 	*iter = bt->get_iterator(key>>48, k);
-	*is_equal = iter->valid() && (iter->key().to_uint64()<<16) == (key<<16);
+	*is_equal = iter->valid() && uint64_t(iter->curr_idx()) == (key>>48) &&
+		(iter->key().to_uint64()<<16) == (key<<16);
 	*larger_than_target = !(*is_equal);
 	*ending = false;
 	if(!iter->valid()) { // try to get a valid iterator
-- 
2.43.0


From 79df7181c73605a06c9b67e2413339fe1718e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 08/18] fix: index tree initialization skips records of other
 kinds

---
 indextree/indextree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index ef3fadb..92a1108 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -137,6 +137,7 @@ func (tree *NVTreeMem) Init(repFn func([]byte)) (err error) {
 		k := iter.Key()
 		v := iter.Value()
 		if k[0] != 0 {
+			iter.Next()
 			continue // the first byte must be zero
 		}
 		k = k[1:]
-- 
2.43.0


From 3924d28dbd97d4575ed772da1813b103a37baa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 09/18] fix: EntryFromRawBytes decodes entries with escaped
 magic bytes

---
 datatree/mock_datatree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 2966244..6e24cd2 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -42,7 +42,7 @@ func EntryFromRawBytes(b []byte) *Entry {
 	}
 	bb = append([]byte{}, b[4:]...)
 	n := recoverMagicBytes(bb)
-	e, _ := EntryFromBytes(bb[n+4:], 0)
+	e, _ := EntryFromBytes(bb[n:], 0)
 	return e
 }
 
-- 
2.43.0


From 09bcd0071b8fa843aa4242699b93c483fbdd1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 10/18] fix: entry encoding escapes every occurrence of the
 magic bytes

---
 datatree/entryfile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datatree/entryfile.go b/datatree/entryfile.go
index 2a64315..c52662a 100644
--- a/datatree/entryfile.go
+++ b/datatree/entryfile.go
@@ -106,8 +106,9 @@ func EntryToBytes(entry Entry, deactivedSerialNumList []int64) []byte {
 	const start = 8
 	writeEntryPayload(b[start:], entry, deactivedSerialNumList)
 
-	// MagicBytes can not lay in or overlap with these 64b integers
-	stop := len(b) - len(deactivedSerialNumList)*8 - 3*8
+	// MagicBytes can overlap with the lower bytes of Height, because they follow NextKey.
+	// It can not lay in or overlap with the other 64b integers
+	stop := len(b) - len(deactivedSerialNumList)*8 - 2*8
 	magicBytesPosList := getAllPos(b[start:stop], MagicBytes[:])
 	if len(magicBytesPosList) == 0 {
 		PutUint24(b[1:4], uint32(length-4-len(deactivedSerialNumList)*8))
@@ -168,7 +169,7 @@ func writeEntryPayload(b []byte, entry Entry, deactivedSerialNumList []int64) {
 }
 
 func getAllPos(s, sep []byte) (allpos []int) {
-	for start, pos := 0, 0; start+len(sep) < len(s); start += pos + len(sep) {
+	for start, pos := 0, 0; start+len(sep) <= len(s); start += pos + len(sep) {
 		pos = bytes.Index(s[start:], sep)
 		if pos == -1 {
 			return
-- 
2.43.0


From e23caccbc76ddcb7d39cda50208cd39c9681f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 11/18] fix: truncating a segmented file drops its read-ahead
 data

---
 datatree/hpfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..6bf4175 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -107,6 +107,9 @@ func (hpf *HPFile) Size() int64 {
 }
 
 func (hpf *HPFile) Truncate(size int64) error {
+	hpf.preReader.mtx.Lock()
+	hpf.preReader.fileID = -1 // its content may be truncated and overwritten
+	hpf.preReader.mtx.Unlock()
 	for size < int64(hpf.largestID)*int64(hpf.blockSize) {
 		f := hpf.fileMap[hpf.largestID]
 		err := f.Close()
-- 
2.43.0


From bd4fbbd308102ee1241c77d321565e489b8ee8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 12/18] fix: pruning keeps the twig root which is needed to
 prove its right sibling

---
 datatree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 094d392..3e0dbe6 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -428,7 +428,7 @@ func (tree *Tree) removeUselessNodes(start, end int64) {
 	maxLevel := calcMaxLevel(tree.youngestTwigID)
 	for level := FirstLevelAboveTwig - 1; level <= maxLevel; level++ {
 		endRound := end
-		if end%2 != 0 && level != FirstLevelAboveTwig-1 {
+		if end%2 != 0 { // keep the left sibling, which the proofs for twig 'end' need
 			endRound--
 		}
 		for i := start - 1; i < endRound; i++ { // minus 1 from start to cover some margin nodes
-- 
2.43.0


From 30f7ee88c05567632efbae6c245d0380479c066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 13/18] fix: loading a saved tree rejects records which are cut
 short

---
 datatree/load.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/datatree/load.go b/datatree/load.go
index 489b0cf..64c0ee6 100644
--- a/datatree/load.go
+++ b/datatree/load.go
@@ -100,7 +100,10 @@ func LoadTwigFromFile(infile io.Reader) (twigID int64, twig Twig, err error) {
 	slices[12] = buf2[:]
 	h := meow.New32(0)
 	for i, slice := range slices {
-		_, err = infile.Read(slice)
+		_, err = io.ReadFull(infile, slice)
+		if err == io.EOF && i != 0 { // only a whole record can be followed by the end of file
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return
 		}
@@ -169,7 +172,7 @@ func (tree *Tree) DumpNodes(outfile io.Writer) error {
 func (tree *Tree) LoadNodes(infile io.Reader) error {
 	var buf [8 + 32 + 4]byte
 	for {
-		_, err := infile.Read(buf[:])
+		_, err := io.ReadFull(infile, buf[:])
 		if err == io.EOF {
 			break
 		}
@@ -208,14 +211,14 @@ func (tree *Tree) DumpMtree4YT(outfile io.Writer) error {
 func (tree *Tree) LoadMtree4YT(infile io.Reader) error {
 	h := meow.New32(0)
 	for i := range tree.mtree4YoungestTwig[:] {
-		_, err := infile.Read(tree.mtree4YoungestTwig[i][:])
+		_, err := io.ReadFull(infile, tree.mtree4YoungestTwig[i][:])
 		if err != nil {
 			return err
 		}
 		_, _ = h.Write(tree.mtree4YoungestTwig[i][:])
 	}
 	var buf [4]byte
-	_, err := infile.Read(buf[:])
+	_, err := io.ReadFull(infile, buf[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c795de1c80fbd26688e771fc1d79bdc37586ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 14/18] fix: the mock data tree ends its list of a twig's
 active entries

---
 datatree/mock_datatree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 6e24cd2..6928bf1 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -88,6 +88,7 @@ func (dt *MockDataTree) EvictTwig(twigID int64) {
 func (dt *MockDataTree) GetActiveEntriesInTwig(twigID int64) chan []byte {
 	res := make(chan []byte, 100)
 	go func() {
+		defer close(res)
 		twig := dt.twigs[twigID]
 		for i, active := range twig.activeBits {
 			if active {
-- 
2.43.0


From 33a54dde6cf6a47aae2f6176170bfc5634ccd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 15/18] fix: the mock data tree keeps dummy entries inactive

---
 datatree/mock_datatree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 6928bf1..4c4b052 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -55,7 +55,7 @@ func (dt *MockDataTree) AppendEntry(entry *Entry) int64 {
 	sn := entry.SerialNum
 	twigID := sn >> TwigShift
 	dt.twigs[twigID].entries[sn&TwigMask] = *entry
-	dt.twigs[twigID].activeBits[sn&TwigMask] = true
+	dt.twigs[twigID].activeBits[sn&TwigMask] = string(entry.Key) != "dummy" // same as Tree.AppendEntry
 	if (sn & TwigMask) == TwigMask {
 		dt.twigs[twigID+1] = &MockTwig{}
 	}
-- 
2.43.0


From 50a76e2cb03f9226f540c65cd7aeb8fc7884a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 16/18] fix: closing the key-value store frees its options and
 block cache

---
 indextree/rocks_db.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/indextree/rocks_db.go b/indextree/rocks_db.go
index 5b718f2..232d94b 100644
--- a/indextree/rocks_db.go
+++ b/indextree/rocks_db.go
@@ -44,6 +44,7 @@ type RocksDB struct {
 	ro     *gorocksdb.ReadOptions
 	wo     *gorocksdb.WriteOptions
 	woSync *gorocksdb.WriteOptions
+	opts   *gorocksdb.Options // destroyed after closing, if it was created here
 	filter *HeightCompactionFilter
 	batch  *rocksDBBatch
 	mtx    sync.Mutex
@@ -79,7 +80,10 @@ func NewRocksDB(name string, dir string) (IKVDB, error) {
 	// 64MB table cache, 32MB write buffer
 	// compression: snappy as default, need to -lsnappy to enable.
 	bbto := gorocksdb.NewDefaultBlockBasedTableOptions()
-	bbto.SetBlockCache(gorocksdb.NewLRUCache(64 * 1024 * 1024))
+	defer bbto.Destroy() // opts keeps a copy
+	cache := gorocksdb.NewLRUCache(64 * 1024 * 1024)
+	defer cache.Destroy() // opts keeps a reference
+	bbto.SetBlockCache(cache)
 	bbto.SetFilterPolicy(gorocksdb.NewBloomFilter(10))
 
 	opts := gorocksdb.NewDefaultOptions()
@@ -90,7 +94,13 @@ func NewRocksDB(name string, dir string) (IKVDB, error) {
 	opts.IncreaseParallelism(runtime.NumCPU())
 	// 1.5GB maximum memory use for writebuffer.
 	opts.OptimizeLevelStyleCompaction(512 * 1024 * 1024)
-	return NewRocksDBWithOptions(name, dir, opts)
+	db, err := NewRocksDBWithOptions(name, dir, opts)
+	if err != nil {
+		opts.Destroy()
+		return nil, err
+	}
+	db.(*RocksDB).opts = opts
+	return db, nil
 }
 
 func NewRocksDBWithOptions(name string, dir string, opts *gorocksdb.Options) (IKVDB, error) {
@@ -205,6 +215,9 @@ func (db *RocksDB) Close() {
 	db.wo.Destroy()
 	db.woSync.Destroy()
 	db.db.Close()
+	if db.opts != nil {
+		db.opts.Destroy()
+	}
 }
 
 // Implements DB.
-- 
2.43.0


From af30baf8a57e697fd85e0c27cfd4702221e04f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 17/18] fix: a record whose stored length does not match its
 content is refused on loading

---
 datatree/entryfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datatree/entryfile.go b/datatree/entryfile.go
index c52662a..8274cae 100644
--- a/datatree/entryfile.go
+++ b/datatree/entryfile.go
@@ -259,6 +259,10 @@ func getNextPos(off, length int64) int64 {
 func (ef *EntryFile) ReadEntryAndSNList(off int64) (entry *Entry, deactivedSerialNumList []int64, nextPos int64) {
 	entryBz, numberOfSN, nextPos := ef.readEntry(off, true /*withSNList*/, false /*useRaw*/, true /*withBuf*/)
 	entry, deactivedSerialNumList = EntryFromBytes(entryBz, numberOfSN)
+	payloadSize := 3*4 + len(entry.Key) + len(entry.Value) + len(entry.NextKey) + 3*8 + 8*numberOfSN
+	if len(entryBz) != payloadSize {
+		panic(fmt.Sprintf("Invalid length at %d: %d!=%d", off, len(entryBz), payloadSize))
+	}
 	return
 }
 
-- 
2.43.0


From 4f7067ea03e38c65402917cfd4b849c09e83593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 18/18] fix: truncating a segmented file beyond its content
 fails

---
 datatree/hpfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 6bf4175..bc25470 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -107,6 +107,9 @@ func (hpf *HPFile) Size() int64 {
 }
 
 func (hpf *HPFile) Truncate(size int64) error {
+	if size > hpf.Size() || size/int64(hpf.blockSize) > int64(hpf.largestID) {
+		return fmt.Errorf("Cannot truncate to %d, some of the content before it is missing", size)
+	}
 	hpf.preReader.mtx.Lock()
 	hpf.preReader.fileID = -1 // its content may be truncated and overwritten
 	hpf.preReader.mtx.Unlock()
-- 
2.43.0

