From d4df2ab60534c41218256308cec7c7dea2c99114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 01/68] fix: reserve fetch order atomically with taking the
 batch

Two concurrent flushers (size and time-out) could take batches in one order
and reserve their sequence numbers in the other, reordering results.
---
 batching/reorder_fetcher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index fc35a81..491f9ea 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -2,6 +2,7 @@ package batching
 
 import (
 	"context"
+	"sync"
 )
 
 type BatchFetcher[T, R any] func(ctx context.Context, events []T) ([]R, error)
@@ -15,6 +16,7 @@ type ReorderFetcher[T, R any] struct {
 	fetchBatch BatchFetcher[T, R]
 	errChan    chan error
 	buffer     *ReorderBuffer[[]R]
+	flushMu    sync.Mutex // Guards taking a batch and reserving its place as one step
 }
 
 type NewReorderFetcherParams[T, R any] struct {
@@ -69,15 +71,19 @@ func (d *ReorderFetcher[T, R]) Flush(ctx context.Context) {
 
 // flush the current batch and then asynchronously run the `FetchBatch` callback.
 func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
+	// Concurrent flushers must reserve in the order they took their batches.
+	d.flushMu.Lock()
 	events := d.batcher.Flush(token)
 	if d.batcher == nil {
 		panic("batcher became nil")
 	}
 	if len(events) == 0 {
+		d.flushMu.Unlock()
 		return
 	}
 
 	seqNum := d.buffer.Reserve()
+	d.flushMu.Unlock()
 	go func() {
 		result, err := d.fetchBatch(ctx, events)
 		if err != nil {
-- 
2.43.0


From 3be2698d78dd7516a4919ce0ee294dd83344881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 02/68] fix: search memtables newest first

---
 dkv/memtable/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/memtable/list.go b/dkv/memtable/list.go
index 4651c6d..5d1f359 100644
--- a/dkv/memtable/list.go
+++ b/dkv/memtable/list.go
@@ -3,6 +3,7 @@ package memtable
 import (
 	"fmt"
 	"iter"
+	"slices"
 	"strings"
 	"sync"
 
@@ -72,7 +73,9 @@ func (l *List) Put(key []byte, value []byte, seqNum uint64) (full bool) {
 }
 
 func (l *List) Get(key []byte) (kv.Entry, error) {
-	for _, t := range l.tablesSnap() {
+	// Search from the active table back to the oldest sealed table so that the
+	// latest write to a key is found first.
+	for _, t := range slices.Backward(l.tablesSnap()) {
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
-- 
2.43.0


From 323f58a9d12f264cc015a9ca1a1d49c76c252af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 03/68] fix: return the latest of a key's versions in level 0

---
 dkv/sst/level_list.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index 9d5eb7c..205ad4d 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -81,7 +81,15 @@ func NewLevelListFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwners
 }
 
 func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
+	// L0 tables may overlap each other so the latest version of a key is only
+	// known after looking at all the L0 tables that might have it. Any version in
+	// L0 is newer than the versions in the lower levels, which have at most one
+	// table for a key each.
+	var latest kv.Entry
 	for t := range ll.AllTablesForKey(key) {
+		if latest != nil && !ll.At(0).tables.Has(t) {
+			break
+		}
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
@@ -89,9 +97,14 @@ func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
 			}
 			return nil, fmt.Errorf("table %#v, %w", t, err)
 		}
-		return v, nil
+		if latest == nil || v.SeqNum() > latest.SeqNum() {
+			latest = v
+		}
+	}
+	if latest == nil {
+		return nil, kv.ErrNotFound
 	}
-	return nil, kv.ErrNotFound
+	return latest, nil
 }
 
 func (ll *LevelList) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-- 
2.43.0


From f904c834753a66686e5a8a764fafa087b345040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 04/68] fix: deletes in memtables hide older values from scans

---
 dkv/db.go                | 14 +++++++++++++-
 dkv/memtable/memtable.go |  6 ++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index aa86028..94fb8f9 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -202,7 +202,19 @@ func (db *DB) Get(key []byte) (kv.Entry, error) {
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	sstables := db.currentSSTables()
 	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
-	return kv.MergeEntries(iters)
+	entries := kv.MergeEntries(iters)
+
+	// Omit deleted entries once they've hidden the older versions of their keys.
+	return func(yield func(kv.Entry) bool) {
+		for entry := range entries {
+			if entry.IsDelete() {
+				continue
+			}
+			if !yield(entry) {
+				return
+			}
+		}
+	}
 }
 
 // Checkpoint initiates a DB checkpoint associated with the caller's provided
diff --git a/dkv/memtable/memtable.go b/dkv/memtable/memtable.go
index 4f015d7..f0cb9e7 100644
--- a/dkv/memtable/memtable.go
+++ b/dkv/memtable/memtable.go
@@ -56,13 +56,11 @@ func (t *MemTable) Delete(key []byte, seqNum uint64) (full bool) {
 }
 
 // ScanPrefix returns all entries matching the prefix in ascending order. This
-// method transparently omits deleted entries.
+// includes deleted entries, which hide older versions of their key in older
+// tables.
 func (t *MemTable) ScanPrefix(prefix []byte) iter.Seq[kv.Entry] {
 	return func(yield func(kv.Entry) bool) {
 		for node := range t.zt.AscendPrefix(prefix) {
-			if isDeleteOp(node) {
-				continue
-			}
 			if !yield(newEntryFromNode(node)) {
 				return
 			}
-- 
2.43.0


From f83a7d3d9c6159c3f314c9a40e6f92f907a755cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 05/68] fix: SearchUnique finds the element below the midpoint

---
 util/sliceu/sliceu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sliceu/sliceu.go b/util/sliceu/sliceu.go
index 6916104..19dcd6c 100644
--- a/util/sliceu/sliceu.go
+++ b/util/sliceu/sliceu.go
@@ -104,7 +104,7 @@ func SearchUnique[S ~[]E, E, T any](x S, target T, cmp func(E, T) int) (int, boo
 		if cmpValue < 0 {
 			low = i + 1
 		} else {
-			high = i - 1
+			high = i
 		}
 	}
 
-- 
2.43.0


From 9e4dd9f73d56a756f2c0e5859602e2b91d17fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 06/68] fix: WriteRun doesn't end a run with an empty table

---
 dkv/sst/table_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 0176881..e11e077 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -99,6 +99,10 @@ func (c *TableWriter) WriteRun(entries iter.Seq[kv.Entry], targetSize uint64) ([
 		for buffer.size < int(targetSize) {
 			entry, ok := next()
 			if !ok {
+				// Don't write an empty table when the run ended with the last chunk.
+				if len(buffer.entries) == 0 {
+					return tables, nil
+				}
 				t, err := c.Write(buffer.all())
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 029db558274db267bdb06afaabe82d0be27131b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 07/68] fix: major compaction doesn't skip older tables when
 picking tables

---
 dkv/sst/compaction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/compaction.go b/dkv/sst/compaction.go
index 5bfeef4..ed27010 100644
--- a/dkv/sst/compaction.go
+++ b/dkv/sst/compaction.go
@@ -53,6 +53,7 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 	// Go through all non-base levels from oldest to newest and pick tables to
 	// merge into base level.
 	var tablesToMerge []*Table
+pickTables:
 	for level := range levels.AscendLevels(1) {
 		tableIter := slices.SortedFunc(level.AllTables(), OrderOldToNew)
 
@@ -62,7 +63,9 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 			sar = sar.WithCompactedBytes(int64(candidate.Size()))
 			tablesToMerge = append(tablesToMerge, candidate)
 			if sar.Percentage() < c.MaxSizeAmplificationPercent {
-				break
+				// Stop for all levels. Picking tables from newer levels would put their
+				// data beneath the older tables remaining in this level.
+				break pickTables
 			}
 		}
 	}
-- 
2.43.0


From ecf9d8c43e3237a8724bc87da4e2b83b57e3022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 08/68] fix: track the lowest and highest seqNum of a table

---
 dkv/sst/table_writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index e11e077..d9a706c 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -66,7 +66,10 @@ func writeEntry(t *Table, entry kv.Entry) {
 	}
 	// Set ending entry values
 	t.endKey = entry.Key()
-	t.endSeqNum = entry.SeqNum()
+
+	// Entries are ordered by key so any entry may have the first or last seqNum
+	t.startSeqNum = min(t.startSeqNum, entry.SeqNum())
+	t.endSeqNum = max(t.endSeqNum, entry.SeqNum())
 
 	// Add to metadata
 	t.searchIndex.IndexOffset(t.size)
-- 
2.43.0


From 56ef59b497af5f72190ebea44bd2e0acb6107add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 09/68] fix: reads capture memtables before sstables

---
 dkv/db.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 94fb8f9..8c411c9 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -183,25 +183,27 @@ func (db *DB) Delete(key []byte) {
 }
 
 func (db *DB) Get(key []byte) (kv.Entry, error) {
-	sstables := db.currentSSTables()
-
 	// First try to get from the memtables
 	v, err := db.mtables.Get(key)
 	if err == nil {
 		return v, nil
 	}
 
-	// Then try the SSTables
+	// Then try the SSTables. These must be looked up after the memtables because
+	// a flush may move a memtable's entries to the SSTables at any time.
 	if err == kv.ErrNotFound {
-		return sstables.Get(key)
+		return db.currentSSTables().Get(key)
 	}
 
 	return nil, err
 }
 
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-	sstables := db.currentSSTables()
-	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
+	// The memtables must be captured before the SSTables because a flush may move
+	// a memtable's entries to the SSTables at any time.
+	memEntries := db.mtables.ScanPrefix(prefix, errOut)
+	tableEntries := db.currentSSTables().ScanPrefix(prefix, errOut)
+	iters := []iter.Seq[kv.Entry]{memEntries, tableEntries}
 	entries := kv.MergeEntries(iters)
 
 	// Omit deleted entries once they've hidden the older versions of their keys.
-- 
2.43.0


From f615aad96cc4ea8b74478d8041e36545221065f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 10/68] fix: synchronize checkpoint list updates and saves

---
 dkv/recovery/checkpoint_list.go | 40 ++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index eba92ae..c34a3eb 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"sync"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -16,9 +17,17 @@ import (
 
 const checkpointsFileName = "checkpoints"
 
+// CheckpointList is safe for concurrent use. Checkpoints are added by the
+// goroutine writing to the database, saved by background tasks, and removed when
+// the job updates the retained checkpoints.
 type CheckpointList struct {
+	mu                        sync.Mutex // Protects checkpoints and checkpointsPendingRemoval
 	checkpoints               []*Checkpoint
 	checkpointsPendingRemoval []*Checkpoint // Track removed checkpoints so they can be destroyed on Save
+
+	// Saves are serialized so that an earlier list never replaces a later list in
+	// the checkpoints file.
+	saveMu sync.Mutex
 }
 
 func NewCheckpointList() *CheckpointList {
@@ -40,13 +49,24 @@ func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, l
 		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
 		LastSeqNum: lastSeqNum,
 	}
+
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	cl.checkpoints = append(cl.checkpoints, cp)
 }
 
 func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
+	cl.saveMu.Lock()
+	defer cl.saveMu.Unlock()
+
+	cl.mu.Lock()
+	checkpoints := slices.Clone(cl.checkpoints)
+	pendingRemoval := slices.Clone(cl.checkpointsPendingRemoval)
+	cl.mu.Unlock()
+
 	// Collect a list of checkpoint docs for serialization
-	checkpointDocs := make([]checkpointDocument, len(cl.checkpoints))
-	for i, ckpt := range cl.checkpoints {
+	checkpointDocs := make([]checkpointDocument, len(checkpoints))
+	for i, ckpt := range checkpoints {
 		checkpointDocs[i] = ckpt.Document()
 	}
 	doc := checkpointListDocument{
@@ -69,29 +89,37 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	}
 
 	// Call cp.Destroy() to delete WAL files
-	for _, cp := range cl.checkpointsPendingRemoval {
+	for _, cp := range pendingRemoval {
 		if err := cp.Destroy(); err != nil {
 			return "", err
 		}
 	}
 
-	// Clear the list of pending checkpoints
-	cl.checkpointsPendingRemoval = nil
+	// Clear the list of destroyed checkpoints
+	cl.mu.Lock()
+	cl.checkpointsPendingRemoval = cl.checkpointsPendingRemoval[len(pendingRemoval):]
+	cl.mu.Unlock()
 
 	return file.URI(), nil
 }
 
 func (cl *CheckpointList) IsEmpty() bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return len(cl.checkpoints) == 0
 }
 
 func (cl *CheckpointList) Latest() *Checkpoint {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
 // RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
 // aren't really removed until the next successful Save.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	idsSet := ds.SetOf(ids...)
 	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
 	for _, cp := range cl.checkpoints {
@@ -109,6 +137,8 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	for _, cp := range cl.checkpoints {
 		if cp.IncludesTable(uri) {
 			return true
-- 
2.43.0


From 5be350f8c648ce8001312dcedceabd723fa61d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 11/68] fix: retention updates keep checkpoints newer than the
 retained ones

---
 dkv/recovery/checkpoint_list.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index c34a3eb..55dac65 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -115,23 +115,32 @@ func (cl *CheckpointList) Latest() *Checkpoint {
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
-// RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
-// aren't really removed until the next successful Save.
+// RetainOnly keeps only the checkpoints with the specified IDs in the list and
+// the checkpoints added after them, which the job can't decide about until all
+// its operators completed them. Other checkpoints aren't really removed until the
+// next successful Save.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
 	cl.mu.Lock()
 	defer cl.mu.Unlock()
 	idsSet := ds.SetOf(ids...)
-	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
-	for _, cp := range cl.checkpoints {
+	latestRetained := -1
+	for i, cp := range cl.checkpoints {
 		if idsSet.Has(cp.ID) {
+			latestRetained = i
+		}
+	}
+	if latestRetained == -1 {
+		panic(fmt.Sprintf("db missing the job's retained checkpoints; job_retained=%v, db_current=%v", ids, cl.checkpoints))
+	}
+
+	nextCheckpoints := make([]*Checkpoint, 0, len(cl.checkpoints))
+	for i, cp := range cl.checkpoints {
+		if idsSet.Has(cp.ID) || i > latestRetained {
 			nextCheckpoints = append(nextCheckpoints, cp)
 		} else {
 			cl.checkpointsPendingRemoval = append(cl.checkpointsPendingRemoval, cp)
 		}
 	}
-	if len(nextCheckpoints) == 0 {
-		panic(fmt.Sprintf("db missing the job's retained checkpoints; job_retained=%v, db_current=%v", ids, cl.checkpoints))
-	}
 
 	cl.checkpoints = nextCheckpoints
 }
-- 
2.43.0


From 4ae1a0de399d19703b31be43677de0a6aaba6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 12/68] fix: table descriptors keep keys that aren't valid
 UTF-8

---
 dkv/sst/table.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index baa830a..76c08e3 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -66,8 +66,8 @@ func NewTable(file storage.File) *Table {
 }
 
 type TableDocument struct {
-	StartKey    string
-	EndKey      string
+	StartKey    []byte // Keys are arbitrary bytes, JSON strings can only carry UTF-8
+	EndKey      []byte
 	Size        uint64
 	EntriesSize uint64
 	URI         string
@@ -85,8 +85,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		file:        fs.Open(doc.URI),
 		size:        int64(doc.Size),
 		entriesSize: int64(doc.EntriesSize),
-		startKey:    []byte(doc.StartKey),
-		endKey:      []byte(doc.EndKey),
+		startKey:    doc.StartKey,
+		endKey:      doc.EndKey,
 		startSeqNum: doc.StartSeqNum,
 		endSeqNum:   doc.EndSeqNum,
 	}
@@ -101,8 +101,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 	params := CleanupParams{
 		deleteFunc:    t.file.CreateDeleteFunc(),
 		dataOwnership: dataOwnership,
-		startKey:      []byte(doc.StartKey),
-		endKey:        []byte(doc.EndKey),
+		startKey:      doc.StartKey,
+		endKey:        doc.EndKey,
 		uri:           doc.URI,
 	}
 
@@ -351,8 +351,8 @@ func (t *Table) ensureMetadataLoaded() {
 
 func (t *Table) Document() TableDocument {
 	return TableDocument{
-		StartKey:    string(t.startKey),
-		EndKey:      string(t.endKey),
+		StartKey:    t.startKey,
+		EndKey:      t.endKey,
 		Size:        uint64(t.size),
 		EntriesSize: uint64(t.entriesSize),
 		URI:         t.file.URI(),
-- 
2.43.0


From 6c7c19e9e031a811c44e8c4a939d80bb1477d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 13/68] fix: a restored database doesn't overwrite its
 checkpoint's tables

---
 dkv/db.go                  |  3 +++
 dkv/recovery/checkpoint.go | 14 ++++++++++++++
 dkv/sst/table_writer.go    | 18 ++++++++++++++++++
 3 files changed, 35 insertions(+)

diff --git a/dkv/db.go b/dkv/db.go
index 8c411c9..ce37ba5 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -136,6 +136,9 @@ func (db *DB) Start(initCheckpoints []recovery.CheckpointHandle) error {
 	db.sstables = latestCP.Levels
 	db.seqNum = latestCP.Levels.LatestSeqNum
 
+	// Don't overwrite tables of the checkpoint.
+	db.tableWriter.SkipTo(latestCP.NextTableID())
+
 	// Start a new writer that doesn't write to a file yet.
 	db.wal = wal.NewWriter(db.fs, latestCP.NextWALID(), db.maxWALSize)
 
diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 75981c5..a314968 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -86,6 +86,20 @@ func (cp *Checkpoint) NextWALID() int {
 	return maxID + 1
 }
 
+// Return 1 greater than the largest table ID in this checkpoint so that new
+// tables don't replace the files of the checkpoint's tables.
+func (cp *Checkpoint) NextTableID() int64 {
+	var nextID int64
+	for level := range cp.Levels.DescendLevels() {
+		for t := range level.AllTables() {
+			if id, ok := sst.TableIDFromURI(t.URI()); ok {
+				nextID = max(nextID, id+1)
+			}
+		}
+	}
+	return nextID
+}
+
 // WALSeq provides an iterator that concatenates all the entries in the list of
 // WALs.
 func (cp *Checkpoint) WALSeq(fs storage.FileSystem) iter.Seq2[wal.Entry, error] {
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index d9a706c..cc862bc 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -4,7 +4,10 @@ import (
 	"fmt"
 	"iter"
 	"math"
+	"path"
 	"slices"
+	"strconv"
+	"strings"
 	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/fields"
@@ -29,6 +32,21 @@ func NewTableWriter(fs storage.FileSystem, id int64) *TableWriter {
 	return &TableWriter{fs: fs, id: atomicNum}
 }
 
+// SkipTo makes sure that the ID of the next table is at least the given ID.
+func (c *TableWriter) SkipTo(id int64) {
+	c.id.Store(max(c.id.Load(), id))
+}
+
+// TableIDFromURI gets the ID that a TableWriter used in the name of a table file.
+func TableIDFromURI(uri string) (id int64, ok bool) {
+	name, ok := strings.CutSuffix(path.Base(uri), ".sst")
+	if !ok {
+		return 0, false
+	}
+	id, err := strconv.ParseInt(name, 10, 64)
+	return id, err == nil
+}
+
 func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
-- 
2.43.0


From bd5fa499cbbf162f5a6ef06c719fff2d826e01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 14/68] fix: rotated WAL segments keep their latest sequence
 number

---
 dkv/wal/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dkv/wal/writer.go b/dkv/wal/writer.go
index 8656180..ccf2b06 100644
--- a/dkv/wal/writer.go
+++ b/dkv/wal/writer.go
@@ -92,9 +92,9 @@ func (w *Writer) Rotate(fs storage.FileSystem) *Writer {
 
 	// Include all data from previous buffers
 	for i, b := range w.sealedBuffers {
-		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf}
+		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf, latestSeqNum: b.latestSeqNum}
 	}
-	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf}
+	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf, latestSeqNum: w.latestSeqNum}
 
 	// And initialize a new active buffer
 	nextLog.activeBuffer = &bufferSegment{}
-- 
2.43.0


From c16b6f7da5281ea9cf8cbf057ecc43eefc01b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 15/68] fix: a database needs the tables of the checkpoints it
 made

---
 dkv/recovery/checkpoint_list.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 55dac65..05b28a3 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -43,11 +43,18 @@ type CheckpointHandle struct {
 // Add creates a new checkpoint, taking ownership of the LevelList reference.
 // Checkpoint is responsible for the LevelList and WAL cleanup when destroyed.
 func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) {
+	tableURISet := make(map[string]struct{})
+	for level := range ll.DescendLevels() {
+		for t := range level.AllTables() {
+			tableURISet[t.URI()] = struct{}{}
+		}
+	}
 	cp := &Checkpoint{
-		ID:         ckptID,
-		Levels:     ll,
-		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
-		LastSeqNum: lastSeqNum,
+		ID:          ckptID,
+		Levels:      ll,
+		WALs:        []wal.Handle{w.Handle(ll.LatestSeqNum)},
+		tableURIset: tableURISet,
+		LastSeqNum:  lastSeqNum,
 	}
 
 	cl.mu.Lock()
-- 
2.43.0


From 34bf616821b2282c5642f20df4e8b75e8ecdd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 16/68] fix: tables aren't deleted when a neighbor can't tell
 whether it needs them

---
 dkv/sst/table.go                       | 1 +
 workers/operator/operator_partition.go | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 76c08e3..0888c8c 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -110,6 +110,7 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		canDelete, err := p.dataOwnership.ExclusivelyOwnsTable(p.uri, p.startKey, p.endKey)
 		if err != nil {
 			slog.Error("failed determining exclusive ownership, not deleting", "err", err, "uri", p.uri)
+			return
 		}
 
 		if canDelete {
diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index 91a04f5..f750a37 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -69,7 +69,12 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 		}
 	}
 
-	return !neighborNeedsTable, err
+	// Without an answer from every neighbor, the table may still be needed.
+	if err != nil {
+		return false, err
+	}
+
+	return !neighborNeedsTable, nil
 }
 
 var _ kv.DataOwnership = &OperatorPartition{}
-- 
2.43.0


From b7ddb87624ad559dbc4ae6141bbdc9cba6f33c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 17/68] fix: a dropped database doesn't delete the tables of
 its checkpoints

---
 dkv/recovery/checkpoint_list.go | 22 ++++++++++++++++++++--
 dkv/sst/table.go                |  9 +++++++++
 dkv/sst/table_writer.go         |  7 ++++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 05b28a3..aa95aba 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"slices"
 	"sync"
+	"weak"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -216,9 +217,26 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 		}
 	}
 
-	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, compositeCheckpointDoc)
+	cl := &CheckpointList{}
+	ownership := &listOwnership{DataOwnership: dataOwnership, list: weak.Make(cl)}
+	cl.checkpoints = []*Checkpoint{newCheckpointFromDocument(fs, ownership, compositeCheckpointDoc)}
 
-	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
+	return cl, nil
+}
+
+// listOwnership is the data ownership of a database for as long as its checkpoint
+// list is in use. When a database is dropped as a whole, its tables may be part
+// of the checkpoint that its successor restores.
+type listOwnership struct {
+	kv.DataOwnership
+	list weak.Pointer[CheckpointList]
+}
+
+func (o *listOwnership) ExclusivelyOwnsTable(uri string, startKey, endKey []byte) (bool, error) {
+	if o.list.Value() == nil {
+		return false, nil
+	}
+	return o.DataOwnership.ExclusivelyOwnsTable(uri, startKey, endKey)
 }
 
 // Example format:
diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 0888c8c..f180e2a 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -49,6 +49,12 @@ type Table struct {
 
 // NewTable initializes a new, empty table
 func NewTable(file storage.File) *Table {
+	return newTable(file, func() bool { return true })
+}
+
+// newTable initializes a table whose file is deleted when the table is garbage
+// collected, given that canDelete allows it then.
+func newTable(file storage.File, canDelete func() bool) *Table {
 	t := &Table{
 		file:        file,
 		searchIndex: &SearchIndex{},
@@ -57,6 +63,9 @@ func NewTable(file storage.File) *Table {
 	}
 
 	runtime.AddCleanup(t, func(f func() error) {
+		if !canDelete() {
+			return
+		}
 		if err := f(); err != nil {
 			slog.Error("table cleanup", "err", err)
 		}
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index cc862bc..37c0524 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"sync/atomic"
+	"weak"
 
 	"reduction.dev/reduction/dkv/fields"
 	"reduction.dev/reduction/dkv/kv"
@@ -51,7 +52,11 @@ func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
 
-	table := NewTable(f)
+	// Only a database that's still in use can tell that a table became obsolete.
+	// The tables of a database which was dropped as a whole may be part of the
+	// checkpoint that its successor restores.
+	owner := weak.Make(c)
+	table := newTable(f, func() bool { return owner.Value() != nil })
 	for e := range entries {
 		writeEntry(table, e)
 	}
-- 
2.43.0


From f25a8aa19871c443a24db3a09b9f7a63dec676d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 18/68] fix: removing a checkpoint whose WALs are already gone
 succeeds

---
 dkv/recovery/checkpoint.go      | 6 +++++-
 dkv/storage/local_filesystem.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index a314968..00d6afd 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -1,6 +1,7 @@
 package recovery
 
 import (
+	"errors"
 	"iter"
 
 	"reduction.dev/reduction/dkv/kv"
@@ -51,9 +52,12 @@ func newCheckpointFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwner
 	}
 }
 
+// Destroy deletes the checkpoint's WAL files. The files may be gone already when
+// an earlier attempt failed part of the way or when another database restored
+// the same checkpoint.
 func (cp *Checkpoint) Destroy() error {
 	for _, wal := range cp.WALs {
-		if err := wal.Delete(); err != nil {
+		if err := wal.Delete(); err != nil && !errors.Is(err, storage.ErrNotFound) {
 			return err
 		}
 	}
diff --git a/dkv/storage/local_filesystem.go b/dkv/storage/local_filesystem.go
index a1a70ba..1985074 100644
--- a/dkv/storage/local_filesystem.go
+++ b/dkv/storage/local_filesystem.go
@@ -181,7 +181,11 @@ func (d *DiskFile) Delete() error {
 		panic("tried to delete a file being written")
 	}
 
-	return os.Remove(filepath.Join(d.dir, d.name))
+	err := os.Remove(filepath.Join(d.dir, d.name))
+	if errors.Is(err, os.ErrNotExist) {
+		return ErrNotFound
+	}
+	return err
 }
 
 func (d *DiskFile) Size() int64 {
-- 
2.43.0


From 31cffd95cdba9b726a9c2b7b0196eb4e23d4ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 19/68] fix: a checkpoint merged from several databases can be
 saved

---
 dkv/recovery/checkpoint.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 00d6afd..8d37b01 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -66,16 +66,13 @@ func (cp *Checkpoint) Destroy() error {
 }
 
 func (cp *Checkpoint) Document() checkpointDocument {
-	if len(cp.WALs) > 1 {
-		panic("should not serialize a checkpoint with multiple WALs")
-	}
 	doc := checkpointDocument{
 		ID:         cp.ID,
 		Levels:     cp.Levels.Document(),
 		LastSeqNum: cp.LastSeqNum,
 	}
-	if len(cp.WALs) == 1 {
-		doc.WALs = []wal.HandleDocument{cp.WALs[0].Document()}
+	for _, w := range cp.WALs {
+		doc.WALs = append(doc.WALs, w.Document())
 	}
 
 	return doc
-- 
2.43.0


From c03bd1c8c9a2f0a2a563c8e447de5531f2771fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 20/68] fix: forget checkpoints whose WAL couldn't be saved

---
 dkv/db.go                       |  1 +
 dkv/recovery/checkpoint_list.go | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dkv/db.go b/dkv/db.go
index ce37ba5..208dc51 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -234,6 +234,7 @@ func (db *DB) Checkpoint(ckptID uint64) (wait func() (recovery.CheckpointHandle,
 
 	return bg.Task2(func() (recovery.CheckpointHandle, error) {
 		if err := prevWAL.Save(); err != nil {
+			db.checkpoints.Discard(ckptID)
 			return recovery.CheckpointHandle{}, err
 		}
 		uri, err := db.checkpoints.Save(db.fs)
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index aa95aba..ccef496 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -63,6 +63,16 @@ func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, l
 	cl.checkpoints = append(cl.checkpoints, cp)
 }
 
+// Discard forgets a checkpoint whose WAL couldn't be saved. There's no file to
+// restore it from and none to delete.
+func (cl *CheckpointList) Discard(ckptID uint64) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
+	hasID := func(cp *Checkpoint) bool { return cp.ID == ckptID }
+	cl.checkpoints = slices.DeleteFunc(slices.Clone(cl.checkpoints), hasID)
+	cl.checkpointsPendingRemoval = slices.DeleteFunc(slices.Clone(cl.checkpointsPendingRemoval), hasID)
+}
+
 func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	cl.saveMu.Lock()
 	defer cl.saveMu.Unlock()
@@ -105,7 +115,9 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 
 	// Clear the list of destroyed checkpoints
 	cl.mu.Lock()
-	cl.checkpointsPendingRemoval = cl.checkpointsPendingRemoval[len(pendingRemoval):]
+	cl.checkpointsPendingRemoval = slices.DeleteFunc(slices.Clone(cl.checkpointsPendingRemoval), func(cp *Checkpoint) bool {
+		return slices.Contains(pendingRemoval, cp)
+	})
 	cl.mu.Unlock()
 
 	return file.URI(), nil
-- 
2.43.0


From dd83a421884ed465b82a5323b7480c89fc17ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 21/68] fix: scanning an empty table yields no entries

---
 dkv/storage/cursor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dkv/storage/cursor.go b/dkv/storage/cursor.go
index 5ca5799..3e19004 100644
--- a/dkv/storage/cursor.go
+++ b/dkv/storage/cursor.go
@@ -10,16 +10,17 @@ type Cursor struct {
 	File       io.ReaderAt
 	offset     int64
 	debug      bool
+	bounded    bool
 	startBound uint64
 	endBound   uint64
 }
 
 func NewBoundedCursor(reader io.ReaderAt, start, end uint64) *Cursor {
-	return &Cursor{File: reader, startBound: start, endBound: end}
+	return &Cursor{File: reader, bounded: true, startBound: start, endBound: end}
 }
 
 func (c *Cursor) Move(offset int64) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if offset < int64(c.startBound) {
 			panic(fmt.Sprintf("cursor move to %d before start bound %d", offset, c.startBound))
 		}
@@ -34,7 +35,7 @@ func (c *Cursor) Move(offset int64) {
 
 // Read implements io.Reader.
 func (c *Cursor) Read(p []byte) (n int, err error) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if c.offset >= int64(c.endBound) {
 			return 0, io.EOF
 		}
-- 
2.43.0


From 1f31ae6aa7a77b58e96709626c67dec86ee4b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 22/68] fix: looking up a key before a table's first key
 doesn't panic

---
 dkv/sst/search_index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dkv/sst/search_index.go b/dkv/sst/search_index.go
index 09bb3a3..1c53170 100644
--- a/dkv/sst/search_index.go
+++ b/dkv/sst/search_index.go
@@ -54,6 +54,11 @@ func (si *SearchIndex) Search(targetKey []byte, readKey func(offset int64) ([]by
 		foundIndex--
 	}
 
+	// The key would be before the first key so there's nothing to scan.
+	if foundIndex < 0 {
+		return 0, 0, nil
+	}
+
 	// Use a scan from this point to look for the key
 	startOffset := int64(si.offsets[foundIndex])
 
-- 
2.43.0


From c4515a066d05827b5d71a72028099b2ceb3de7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 23/68] fix: WAL replay reports the seqNum of deletes and may
 start after the last entry

---
 dkv/wal/reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dkv/wal/reader.go b/dkv/wal/reader.go
index 21e146b..ca4a739 100644
--- a/dkv/wal/reader.go
+++ b/dkv/wal/reader.go
@@ -50,7 +50,9 @@ func (r *Reader) All() iter.Seq2[Entry, error] {
 
 		// Skip entries until we reach the next seqNum
 		for i := skipEntriesCount; i > 0; i-- {
-			if err := fields.SkipUint64(cursor); err != nil {
+			if err := fields.SkipUint64(cursor); errors.Is(err, io.EOF) {
+				return // Every entry is before the start
+			} else if err != nil {
 				yield(Entry{}, err)
 				return
 			}
@@ -94,7 +96,7 @@ func (r *Reader) All() iter.Seq2[Entry, error] {
 				return
 			}
 			if wasDeleted {
-				if !yield(Entry{K: key, Deleted: true}, nil) {
+				if !yield(Entry{K: key, seqNum: seqNum, Deleted: true}, nil) {
 					return
 				}
 				continue
-- 
2.43.0


From 6a0a5b79888338c90049af225e30e1b154b4ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 24/68] verif hooks: database options and timer cache size
 (build tag verif)

---
 dkv/db.go                      |  1 +
 dkv/tune.go                    |  6 ++++++
 dkv/tune_verif.go              | 13 +++++++++++++
 workers/operator/operator.go   |  2 +-
 workers/operator/tune.go       |  6 ++++++
 workers/operator/tune_verif.go | 13 +++++++++++++
 6 files changed, 40 insertions(+), 1 deletion(-)
 create mode 100644 dkv/tune.go
 create mode 100644 dkv/tune_verif.go
 create mode 100644 workers/operator/tune.go
 create mode 100644 workers/operator/tune_verif.go

diff --git a/dkv/db.go b/dkv/db.go
index 208dc51..ab87090 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -59,6 +59,7 @@ func Open(options DBOptions, initCheckpoints []recovery.CheckpointHandle) *DB {
 }
 
 func New(options DBOptions) *DB {
+	tuneOptions(&options)
 	// Default size to 64 MB
 	if options.MemTableSize == 0 {
 		options.MemTableSize = 64 * size.MB
diff --git a/dkv/tune.go b/dkv/tune.go
new file mode 100644
index 0000000..8bcd9a9
--- /dev/null
+++ b/dkv/tune.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package dkv
+
+// tuneOptions is a hook for verification builds.
+func tuneOptions(options *DBOptions) {}
diff --git a/dkv/tune_verif.go b/dkv/tune_verif.go
new file mode 100644
index 0000000..937b4f0
--- /dev/null
+++ b/dkv/tune_verif.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package dkv
+
+// TuneOptions adjusts the options of every new database in verification builds,
+// so that flushes and compactions happen at small scale.
+var TuneOptions func(options *DBOptions)
+
+func tuneOptions(options *DBOptions) {
+	if TuneOptions != nil {
+		TuneOptions(options)
+	}
+}
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 835de06..e0521b7 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -214,7 +214,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		DataOwnership: newOperatorPartition(o.keyGroupRange, neighborPartitions),
 	}, ckptHandles)
 	o.stateStore = NewKeyedStateStore(o.db, o.keySpace)
-	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, size.GB), req.SourceRunnerIds)
+	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, tuneTimerCacheSize(size.GB)), req.SourceRunnerIds)
 
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
diff --git a/workers/operator/tune.go b/workers/operator/tune.go
new file mode 100644
index 0000000..e5ebcb5
--- /dev/null
+++ b/workers/operator/tune.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package operator
+
+// tuneTimerCacheSize is a hook for verification builds.
+func tuneTimerCacheSize(bytes uint64) uint64 { return bytes }
diff --git a/workers/operator/tune_verif.go b/workers/operator/tune_verif.go
new file mode 100644
index 0000000..3a74029
--- /dev/null
+++ b/workers/operator/tune_verif.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package operator
+
+// TuneTimerCacheSize adjusts the size of the timer cache in verification builds.
+var TuneTimerCacheSize func(bytes uint64) uint64
+
+func tuneTimerCacheSize(bytes uint64) uint64 {
+	if TuneTimerCacheSize != nil {
+		return TuneTimerCacheSize(bytes)
+	}
+	return bytes
+}
-- 
2.43.0


From a3a16d62d7b62209c23795f6a35cfbd5dedf70cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 25/68] fix: the watermark of an operator without reports is
 the epoch

---
 workers/operator/timer_registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/workers/operator/timer_registry.go b/workers/operator/timer_registry.go
index 3f42798..70e49dd 100644
--- a/workers/operator/timer_registry.go
+++ b/workers/operator/timer_registry.go
@@ -33,6 +33,7 @@ func NewTimerRegistry(store *TimerStore, srIDs []string) *TimerRegistry {
 	return &TimerRegistry{
 		upstreams: upstreams,
 		store:     store,
+		watermark: time.Unix(0, 0), // The minimum of upstreams that haven't reported
 	}
 }
 
-- 
2.43.0


From 6ee3c91358a9aadf38065e4b168e093b7ab095d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 26/68] fix: redeploying an operator leaves nothing of its last
 deployment behind

---
 workers/operator/checkpoint.go |  21 +++---
 workers/operator/operator.go   | 116 +++++++++++++++++++++++++++------
 2 files changed, 109 insertions(+), 28 deletions(-)

diff --git a/workers/operator/checkpoint.go b/workers/operator/checkpoint.go
index ec58ef9..582875a 100644
--- a/workers/operator/checkpoint.go
+++ b/workers/operator/checkpoint.go
@@ -36,17 +36,22 @@ func (c *checkpoint) hasAllBarriers() bool {
 	return len(c.srIDs) == 0
 }
 
-// alignSender returns a waiter function that will block requests from senders
-// until all barriers have been received.
-func (c *checkpoint) alignSender(senderID string) (wait func()) {
+// alignSender returns a channel that's closed when the sender's next request may
+// proceed. Senders which delivered their barrier wait until all barriers have
+// been received.
+func (c *checkpoint) alignSender(senderID string) (aligned <-chan struct{}) {
 	if c == nil {
-		return func() {} // no-op if there is no checkpoint
+		return alwaysAligned // there is no checkpoint
 	}
 
 	if _, ok := c.srIDs[senderID]; !ok {
-		return func() {
-			<-c.allBarriersReceived
-		}
+		return c.allBarriersReceived
 	}
-	return func() {}
+	return alwaysAligned
 }
+
+var alwaysAligned = func() <-chan struct{} {
+	c := make(chan struct{})
+	close(c)
+	return c
+}()
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index e0521b7..6b20ae3 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -2,6 +2,7 @@ package operator
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"log/slog"
 	"slices"
@@ -35,8 +36,10 @@ type Operator struct {
 	userHandler             proto.Handler
 	Logger                  *slog.Logger
 	mu                      *sync.RWMutex
+	deployMu                sync.Mutex // Serializes deployments
 	clock                   clocks.Clock
 	events                  chan func()
+	stopped                 chan struct{} // Closed when the event loop ended
 	stop                    context.CancelFunc
 	isHalting               atomic.Bool
 	status                  *operatorStatus
@@ -53,10 +56,22 @@ type Operator struct {
 	stateStore     *KeyedStateStore
 	timerRegistry  *TimerRegistry
 	sourceRunners  *upstreams
+	deployment     atomic.Pointer[deployment]
 
 	checkpoint *checkpoint
 }
 
+// A deployment identifies which events belong together.
+type deployment struct {
+	sourceRunnerIDs []string
+	ended           chan struct{} // Closed when another deployment begins
+}
+
+var (
+	errEnded   = connect.NewError(connect.CodeFailedPrecondition, errors.New("event is for an earlier deployment"))
+	errStopped = connect.NewError(connect.CodeUnavailable, errors.New("operator is stopped"))
+)
+
 // Events bound for the user's handler
 type RxnHandlerEvent struct {
 	key   []byte
@@ -96,6 +111,7 @@ func NewOperator(params NewOperatorParams) *Operator {
 		mu:                      &sync.RWMutex{},
 		clock:                   params.Clock,
 		events:                  make(chan func()),
+		stopped:                 make(chan struct{}),
 		stop:                    func() {}, // initialize with noop
 		eventBatchingParams:     params.EventBatching,
 		status:                  newOperatorStatus(),
@@ -125,6 +141,7 @@ func (o *Operator) Start(ctx context.Context) error {
 		if err := o.processEvents(ctx); err != nil {
 			o.Logger.Error("processEvents failed", "err", err)
 		}
+		close(o.stopped)
 		cancel()
 	}()
 
@@ -156,6 +173,13 @@ func (o *Operator) Halt() {
 }
 
 func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperatorRequest, sink connectors.SinkWriter) error {
+	o.deployMu.Lock()
+	defer o.deployMu.Unlock()
+
+	if err := o.endDeployment(ctx); err != nil {
+		return err
+	}
+
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
@@ -197,8 +221,6 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		}
 	}
 
-	// Update status to loading before opening database
-	o.status.LoadingStarted()
 	dkvOpenStart := time.Now()
 
 	// Initialize the DKV filesystem using the ID for a prefix
@@ -218,6 +240,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
+	o.deployment.Store(&deployment{sourceRunnerIDs: slices.Clone(req.SourceRunnerIds), ended: make(chan struct{})})
 
 	if err := o.status.DidLoad(); err != nil {
 		return fmt.Errorf("invalid status transition: %w", err)
@@ -227,6 +250,33 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	return nil
 }
 
+// endDeployment ends the current deployment between two events. It releases
+// waiting senders and forgets pending events and unaligned checkpoints because
+// nothing sent to one deployment may change the state of the next.
+func (o *Operator) endDeployment(ctx context.Context) error {
+	done := make(chan struct{})
+	end := func() {
+		defer close(done)
+		o.status.LoadingStarted()
+		if d := o.deployment.Swap(nil); d != nil {
+			close(d.ended)
+		}
+		o.mu.Lock()
+		o.checkpoint = nil
+		o.mu.Unlock()
+		o.eventBatcher.Flush(batching.CurrentBatch)
+	}
+	select {
+	case o.events <- end:
+		<-done
+		return nil
+	case <-o.stopped:
+		return errStopped
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.UpdateRetainedCheckpointsRequest) error {
 	return o.db.UpdateRetainedCheckpoints(req.CheckpointIds)
 }
@@ -236,7 +286,8 @@ func (o *Operator) HandleNeedsTable(fileURI string) bool {
 }
 
 func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *workerpb.Event) error {
-	if !o.status.IsReady() {
+	deployment := o.deployment.Load()
+	if deployment == nil || !o.status.IsReady() {
 		err := fmt.Errorf("operator not ready to handle events (status: %s)", o.status)
 		o.Logger.Debug("HandleEvent", "sender", senderID, "event", req.Event, "status", o.status, "err", err)
 		return connect.NewError(connect.CodeUnavailable, err)
@@ -244,36 +295,61 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 
 	o.Logger.Debug("handling", "sender", senderID, "event", req.Event)
 
+	// Source runners of earlier deployments may still be sending.
+	if !slices.Contains(deployment.sourceRunnerIDs, senderID) {
+		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("source runner %s isn't part of the deployment", senderID))
+	}
+
 	// Block the sender to align checkpoint barriers if needed
 	o.mu.RLock()
-	waitOnAlignment := o.checkpoint.alignSender(senderID)
+	aligned := o.checkpoint.alignSender(senderID)
 	o.mu.RUnlock()
-	waitOnAlignment()
+	select {
+	case <-aligned:
+	case <-deployment.ended:
+		return errEnded
+	case <-o.stopped:
+		return errStopped
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 
-	// Collect the err response from the queued event.
-	respErr := make(chan error)
+	var handle func() error
 	switch typedEvent := req.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
-		o.events <- func() {
-			respErr <- o.handleUserEvent(ctx, typedEvent.KeyedEvent)
-		}
+		handle = func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) }
 	case *workerpb.Event_Watermark:
-		o.events <- func() {
-			respErr <- o.handleWatermark(ctx, senderID, typedEvent.Watermark)
-		}
+		handle = func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) }
 	case *workerpb.Event_CheckpointBarrier:
-		o.events <- func() {
-			respErr <- o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier)
-		}
+		handle = func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) }
 	case *workerpb.Event_SourceComplete:
-		o.events <- func() {
-			respErr <- o.handleSourceComplete(senderID)
-		}
+		handle = func() error { return o.handleSourceComplete(senderID) }
 	default:
 		return fmt.Errorf("unknown event to handle %v", typedEvent)
 	}
 
-	return <-respErr
+	// Collect the err response from the queued event.
+	respErr := make(chan error, 1)
+	event := func() {
+		switch {
+		case deployment != o.deployment.Load():
+			respErr <- errEnded
+		case ctx.Err() != nil:
+			respErr <- ctx.Err()
+		default:
+			respErr <- handle()
+		}
+	}
+	select {
+	case o.events <- event:
+		return <-respErr
+	case <-deployment.ended:
+		return errEnded
+	case <-o.stopped:
+		return errStopped
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
 
 // Process events until the o.events channel is closed or the context is canceled.
-- 
2.43.0


From cf7d1bc1f94d0cc23d45ec47cad888ee4edef06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 27/68] fix: checkpoints are assigned to ranges whatever their
 order

---
 partitioning/key_space.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/partitioning/key_space.go b/partitioning/key_space.go
index 93c79c5..f799ac8 100644
--- a/partitioning/key_space.go
+++ b/partitioning/key_space.go
@@ -95,18 +95,12 @@ func keyGroupRanges(keyGroupCount, rangeCount int) []KeyGroupRange {
 // KeyGroupRanges.
 func AssignRanges(to []KeyGroupRange, from []KeyGroupRange) [][]int {
 	assignments := make([][]int, len(to))
-	fromIdx := 0
 	for toIdx, toRange := range to {
-		// Advance fromIdx to the first possible overlap
-		for fromIdx < len(from) && from[fromIdx].End <= toRange.Start {
-			fromIdx++
-		}
-		j := fromIdx
-		for j < len(from) && from[j].Start < toRange.End {
-			if toRange.Overlaps(from[j]) {
-				assignments[toIdx] = append(assignments[toIdx], j)
+		// The `from` ranges may come in any order
+		for fromIdx, fromRange := range from {
+			if toRange.Overlaps(fromRange) {
+				assignments[toIdx] = append(assignments[toIdx], fromIdx)
 			}
-			j++
 		}
 	}
 	return assignments
-- 
2.43.0


From 0795ac93f114ff76655f7e2b5bc183507b2a870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 28/68] fix: every deployment of an operator has its own DKV
 directory

---
 workers/operator/operator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 6b20ae3..6d530fc 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -223,8 +223,10 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 
 	dkvOpenStart := time.Now()
 
-	// Initialize the DKV filesystem using the ID for a prefix
-	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id))
+	// Initialize the DKV filesystem using the ID for a prefix. Every deployment
+	// gets its own directory because its files must not replace those of an
+	// earlier deployment that are part of a retained checkpoint.
+	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id, ksuid.New().String()))
 	if err != nil {
 		return fmt.Errorf("creating filesystem: %w", err)
 	}
-- 
2.43.0


From c2eb77564c3b864e19420587b26594c06cd1fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 29/68] fix: pushing a value again doesn't grow the sorted
 cache

---
 util/ds/sorted_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index e8fc497..69146c1 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -23,7 +23,9 @@ func NewSortedCache(maxSizeBytes uint64) *SortedCache {
 
 func (s *SortedCache) Push(addValue []byte) {
 	s.byteSize += uint64(len(addValue))
-	s.tree.ReplaceOrInsert(addValue)
+	if replaced, ok := s.tree.ReplaceOrInsert(addValue); ok {
+		s.byteSize -= uint64(len(replaced))
+	}
 }
 
 func (s *SortedCache) Pop() (min []byte, ok bool) {
-- 
2.43.0


From 28f87b616becb46d4016b4c5dd769d2b9484e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 30/68] fix: timers beyond the cache's capacity fire in order

---
 util/ds/sorted_cache.go         |  4 ++++
 workers/operator/timer_store.go | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index 69146c1..5c63f8d 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -48,6 +48,10 @@ func (s *SortedCache) Peek() (min []byte, ok bool) {
 	return s.tree.Min()
 }
 
+func (s *SortedCache) PeekLast() (max []byte, ok bool) {
+	return s.tree.Max()
+}
+
 func (s *SortedCache) Delete(key []byte) {
 	deleted, ok := s.tree.Delete(key)
 	if ok {
diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 3f2ab50..5e48860 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -145,7 +145,12 @@ func (pq *KeyGroupPriorityQueue) Pop() ([]byte, bool) {
 
 func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 	pq.loadFromDB()
-	pq.cache.Push(data)
+
+	// The cache holds the smallest items. When there are more items in the db, an
+	// item past the cached ones may not be smaller than those.
+	if max, ok := pq.cache.PeekLast(); pq.allDataInCache || ok && bytes.Compare(data, max) < 0 {
+		pq.cache.Push(data)
+	}
 
 	// If pushing the item exceeded the cache capacity, evict items until we're back under the limit
 	for pq.cache.IsFull() && !pq.cache.IsEmpty() {
@@ -176,7 +181,8 @@ func (pq *KeyGroupPriorityQueue) Delete(data []byte) {
 	pq.db.Delete(data)
 }
 
-// Load all of the given KeyGroup's data into the cache.
+// Load the smallest of the given KeyGroup's data into the cache, all of it if
+// the cache has the capacity.
 func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	if !pq.cache.IsEmpty() || pq.allDataInCache {
 		return
@@ -187,16 +193,18 @@ func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	prefix[2] = 0x01 // Schema byte
 
 	var err error
+	pq.allDataInCache = true
 	for entry := range pq.db.ScanPrefix(prefix, &err) {
-		pq.cache.Push(entry.Key())
-		if pq.cache.IsFull() {
+		// There are more items than the cache can hold
+		if pq.cache.IsFull() && !pq.cache.IsEmpty() {
+			pq.allDataInCache = false
 			break
 		}
+		pq.cache.Push(entry.Key())
 	}
 	if err != nil {
 		panic(err)
 	}
-	pq.allDataInCache = true
 }
 
 var _ ds.QueuePartition[[]byte] = &KeyGroupPriorityQueue{}
-- 
2.43.0


From 6f8713396106e1472187cf5dd3c0a2563036a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:25 +0000
Subject: [PATCH 31/68] fix: restoring several checkpoints loads their tables
 as overlapping

---
 dkv/recovery/checkpoint_list.go | 18 +++++++++++++++---
 dkv/sst/level_list.go           |  9 +++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index ccef496..2abb3dc 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -223,10 +223,22 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 		// Merge WAL handles
 		compositeCheckpointDoc.WALs = append(compositeCheckpointDoc.WALs, doc.WALs...)
 
-		// Merge level list
-		for levelIndex, level := range doc.Levels {
-			compositeCheckpointDoc.Levels[levelIndex] = append(compositeCheckpointDoc.Levels[levelIndex], level...)
+	}
+
+	// Tables of different databases overlap each other, which only L0 allows. The
+	// databases may share tables of an earlier checkpoint.
+	if len(rest) > 0 {
+		levels := make([][]sst.TableDocument, len(compositeCheckpointDoc.Levels))
+		uris := ds.NewSet[string](100)
+		for _, doc := range checkpointDocs {
+			for _, table := range slices.Concat(doc.Levels...) {
+				if !uris.Has(table.URI) {
+					uris.Add(table.URI)
+					levels[0] = append(levels[0], table)
+				}
+			}
 		}
+		compositeCheckpointDoc.Levels = levels
 	}
 
 	cl := &CheckpointList{}
diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index 205ad4d..e0ca77a 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -82,14 +82,11 @@ func NewLevelListFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwners
 
 func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
 	// L0 tables may overlap each other so the latest version of a key is only
-	// known after looking at all the L0 tables that might have it. Any version in
-	// L0 is newer than the versions in the lower levels, which have at most one
-	// table for a key each.
+	// known after looking at all the tables that might have it. The lower levels
+	// have at most one table for a key each, but when L0 has tables of several
+	// databases, some of its versions may be older than those in lower levels.
 	var latest kv.Entry
 	for t := range ll.AllTablesForKey(key) {
-		if latest != nil && !ll.At(0).tables.Has(t) {
-			break
-		}
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
-- 
2.43.0


From 01f48a6f4a8a3904257c7dfe11a6064a3976ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:25 +0000
Subject: [PATCH 32/68] fix: source runners are deployed before operators
 accept events

---
 jobs/assembly.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 9d2bcd6..c221bed 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -78,6 +78,13 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		})
 	}
 
+	// The source runners must have stopped sending the events of an earlier
+	// deployment before the operators begin to accept events.
+	if err := eg.Wait(); err != nil {
+		return err
+	}
+	eg, gctx = errgroup.WithContext(context.Background())
+
 	// Create list of ranges from checkpoints
 	ckptRanges := make([]partitioning.KeyGroupRange, len(ckpt.GetOperatorCheckpoints()))
 	for i, opCkpt := range ckpt.GetOperatorCheckpoints() {
-- 
2.43.0


From b4eed69ea1aa26cf0a25dff3319fadfc3623eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 33/68] fix: restoring a checkpoint omits tables without owned
 keys

---
 dkv/dkvtest/hash_based_data_ownership.go | 4 ++++
 dkv/kv/data_ownership.go                 | 8 ++++++++
 dkv/recovery/checkpoint_list.go          | 7 +++++++
 workers/operator/operator_partition.go   | 4 ++++
 4 files changed, 23 insertions(+)

diff --git a/dkv/dkvtest/hash_based_data_ownership.go b/dkv/dkvtest/hash_based_data_ownership.go
index df5bb1d..cfc2561 100644
--- a/dkv/dkvtest/hash_based_data_ownership.go
+++ b/dkv/dkvtest/hash_based_data_ownership.go
@@ -29,6 +29,10 @@ func (p *HashBasedDataOwnership) OwnsKey(key []byte) bool {
 	return keyIndex == uint64(p.index)
 }
 
+func (p *HashBasedDataOwnership) OwnsKeyBetween(startKey []byte, endKey []byte) bool {
+	return true // Any range may have a key with an owned hash
+}
+
 func (p *HashBasedDataOwnership) ExclusivelyOwnsTable(uri string, startKey []byte, endKey []byte) (bool, error) {
 	startHash := md5.Sum(startKey)
 	endHash := md5.Sum(endKey)
diff --git a/dkv/kv/data_ownership.go b/dkv/kv/data_ownership.go
index 39a023a..eef7968 100644
--- a/dkv/kv/data_ownership.go
+++ b/dkv/kv/data_ownership.go
@@ -6,6 +6,10 @@ type DataOwnership interface {
 	// OwnsKey determines if this instance owns the specified key
 	OwnsKey(key []byte) bool
 
+	// OwnsKeyBetween determines if this instance may own any key from startKey to
+	// endKey.
+	OwnsKeyBetween(startKey, endKey []byte) bool
+
 	// ExclusivelyOwnsTable determines if this instance exclusively owns the
 	// given table with the specified start and end keys.
 	ExclusivelyOwnsTable(uri string, startKey, endKey []byte) (bool, error)
@@ -18,6 +22,10 @@ func (*AllDataOwnership) OwnsKey(key []byte) bool {
 	return true
 }
 
+func (*AllDataOwnership) OwnsKeyBetween(startKey, endKey []byte) bool {
+	return true
+}
+
 func (*AllDataOwnership) ExclusivelyOwnsTable(uri string, startKey, endKey []byte) (bool, error) {
 	return true, nil
 }
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 2abb3dc..5988839 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -215,6 +215,13 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 		}
 
 		checkpointDocs[i] = doc.Checkpoints[ckptIndex]
+
+		// Omit the tables that only have keys of other owners, who may delete them.
+		for level, tables := range checkpointDocs[i].Levels {
+			checkpointDocs[i].Levels[level] = slices.DeleteFunc(tables, func(table sst.TableDocument) bool {
+				return !dataOwnership.OwnsKeyBetween(table.StartKey, table.EndKey)
+			})
+		}
 	}
 
 	// Merge the checkpoint documents into the first
diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index f750a37..8fe168c 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -26,6 +26,10 @@ func (o *OperatorPartition) OwnsKey(key []byte) bool {
 	return o.keyGroupRange.IncludesKeyGroup(keyGroup)
 }
 
+func (o *OperatorPartition) OwnsKeyBetween(startKey []byte, endKey []byte) bool {
+	return o.keyGroupRange.Overlaps(partitioning.KeyGroupRangeFromBytes(startKey[:2], endKey[:2]))
+}
+
 func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, endKey []byte) (bool, error) {
 	// If this partition owns the entire key range then there's no need to check
 	// other operators.
-- 
2.43.0


From a1d329a176d2f4ca1aa8b00f29fb1a40b32faadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 34/68] fix: a retention update of another deployment is an
 error, not a panic

---
 dkv/db.go                       | 4 +++-
 dkv/recovery/checkpoint_list.go | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index ab87090..b6577c3 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -250,7 +250,9 @@ func (db *DB) Checkpoint(ckptID uint64) (wait func() (recovery.CheckpointHandle,
 }
 
 func (db *DB) UpdateRetainedCheckpoints(ids []uint64) error {
-	db.checkpoints.RetainOnly(ids)
+	if err := db.checkpoints.RetainOnly(ids); err != nil {
+		return err
+	}
 	_, err := db.checkpoints.Save(db.fs)
 	return err
 }
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 5988839..e5641d6 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -139,7 +139,7 @@ func (cl *CheckpointList) Latest() *Checkpoint {
 // the checkpoints added after them, which the job can't decide about until all
 // its operators completed them. Other checkpoints aren't really removed until the
 // next successful Save.
-func (cl *CheckpointList) RetainOnly(ids []uint64) {
+func (cl *CheckpointList) RetainOnly(ids []uint64) error {
 	cl.mu.Lock()
 	defer cl.mu.Unlock()
 	idsSet := ds.SetOf(ids...)
@@ -150,7 +150,7 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 		}
 	}
 	if latestRetained == -1 {
-		panic(fmt.Sprintf("db missing the job's retained checkpoints; job_retained=%v, db_current=%v", ids, cl.checkpoints))
+		return fmt.Errorf("db missing the job's retained checkpoints; job_retained=%v, db_current=%v", ids, cl.checkpoints)
 	}
 
 	nextCheckpoints := make([]*Checkpoint, 0, len(cl.checkpoints))
@@ -163,6 +163,7 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 	}
 
 	cl.checkpoints = nextCheckpoints
+	return nil
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
-- 
2.43.0


From 118b94a6d3e7f75000929e1061c86a4579d802e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 35/68] fix: an operator doesn't checkpoint when handling the
 events ahead of the barriers fails

---
 workers/operator/operator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 6d530fc..af39e22 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -421,7 +421,10 @@ func (o *Operator) handleCheckpointBarrier(ctx context.Context, senderID string,
 	}
 
 	if o.checkpoint.hasAllBarriers() {
-		o.processEventBatch(ctx, batching.CurrentBatch) // Must flush any pending events before checkpointing
+		// Must flush any pending events before checkpointing
+		if err := o.processEventBatch(ctx, batching.CurrentBatch); err != nil {
+			return err
+		}
 		cp, err := o.db.Checkpoint(o.checkpoint.checkpointID)()
 		if err != nil {
 			return err
-- 
2.43.0


From 4de899a1e6110e862ac3ce2eff778b8b007a542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 36/68] fix: a repeated source runner checkpoint isn't added
 again

---
 storage/snapshots/snapshot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index eedb3fb..b1a4c0f 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -78,6 +78,7 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 	}
 	if wasCompleted {
 		slog.Warn("received another source runner checkpoint from same id", "id", ckpt.SourceRunnerId)
+		return nil
 	}
 
 	s.sourceRunnerIDsComplete[ckpt.SourceRunnerId] = true
-- 
2.43.0


From cbf7ba37d73cdae5ddc7c27d759ae74146c5b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 37/68] fix: checkpoints complete after the job created another
 source splitter

---
 storage/snapshots/store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 8759f1c..ed54f88 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -161,10 +161,12 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 	return nil
 }
 
+// RegisterSourceSplitter sets the splitter to checkpoint. It replaces the splitter
+// of an earlier assembly.
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
-	s.sourceSplitters = append(s.sourceSplitters, splitter)
+	s.sourceSplitters = []connectors.SourceSplitter{splitter}
 }
 
 func (s *Store) finishSnapshot(snap *jobSnapshot) {
-- 
2.43.0


From 2ea7efdb6103dc9b9c3a81ae2971b3e224a278de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 38/68] fix: the snapshot store reports its errors

---
 storage/snapshots/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index ed54f88..abf03f8 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -56,6 +56,7 @@ func NewStore(params *NewStoreParams) *Store {
 		log:                        slog.With("instanceID", "job"),
 		savepointURI:               params.SavepointURI,
 		subscriber:                 params.CheckpointEvents,
+		errChan:                    params.ErrChan,
 		retainedCheckpointsUpdated: params.RetainedCheckpointsUpdated,
 	}
 
-- 
2.43.0


From 721671b1d33fcb19f0479aa14e52d3dc4698c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 39/68] fix: overlapping publications of checkpoints keep their
 order

---
 storage/snapshots/store.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index abf03f8..7aee835 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -29,6 +29,7 @@ type Store struct {
 	retainedCheckpointsUpdated chan []uint64
 	state                      storeState
 	stateMu                    sync.Mutex
+	notifyMu                   sync.Mutex // Serializes retained checkpoint notifications
 	sourceSplitters            []connectors.SourceSplitter
 }
 
@@ -36,6 +37,9 @@ type storeState struct {
 	completedSnapshots []*jobSnapshot
 	pendingSnapshot    *jobSnapshot
 	checkpointID       uint64 // The last used, monotonically increasing checkpoint ID
+
+	// Closed when all snapshots that were finished so far are published (or failed)
+	published chan struct{}
 }
 
 type NewStoreParams struct {
@@ -177,8 +181,17 @@ func (s *Store) finishSnapshot(snap *jobSnapshot) {
 	}
 	snap.splitterState = s.sourceSplitters[0].Checkpoint()
 
+	// Publish snapshots in the order they were finished so that an earlier
+	// snapshot never replaces a later one.
+	previous, done := s.state.published, make(chan struct{})
+	s.state.published = done
+
 	go func() {
+		if previous != nil {
+			<-previous
+		}
 		uri, err := s.finishSnapshotAsync(snap)
+		close(done)
 		if err != nil {
 			s.errChan <- err
 			return
@@ -223,10 +236,13 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 			}
 		}()
 
-		// Notify subscribers of new list of checkpoints to retain (just the completed one)
+		// Notify subscribers of new list of checkpoints to retain (just the
+		// completed one, or the latest one if there are more by then)
 		if s.retainedCheckpointsUpdated != nil {
 			go func() {
-				s.retainedCheckpointsUpdated <- []uint64{snap.id}
+				s.notifyMu.Lock()
+				defer s.notifyMu.Unlock()
+				s.retainedCheckpointsUpdated <- []uint64{s.CurrentCheckpoint().Id}
 			}()
 		}
 	}
-- 
2.43.0


From 82b9de0a35a15f95c3ad1aa5505d9c75c507ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 40/68] fix: a local directory never has partially written
 files

---
 storage/locations/local_directory.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 83f95ad..5e43ee6 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -32,27 +32,35 @@ func (d *LocalDirectory) Write(fname string, reader io.Reader) (string, error) {
 		return "", fmt.Errorf("Directory.Write error creating directory %s: %w", d.Path, err)
 	}
 
-	targetFile, err := os.Create(fullPath)
+	// Write to a temporary file so that there is never a partially written file
+	// with the given name.
+	tempPath := fullPath + ".tmp"
+	targetFile, err := os.Create(tempPath)
 	if err != nil {
-		return "", fmt.Errorf("Directory.Write creating file %s: %w", fullPath, err)
+		return "", fmt.Errorf("Directory.Write creating file %s: %w", tempPath, err)
 	}
 
 	_, err = io.Copy(targetFile, reader)
-	if err != nil {
-		return "", err
+	if err == nil {
+		err = targetFile.Sync()
+	}
+	if closeErr := targetFile.Close(); err == nil {
+		err = closeErr
 	}
-	err = targetFile.Close()
 	if err != nil {
 		return "", err
 	}
+	if err := os.Rename(tempPath, fullPath); err != nil {
+		return "", fmt.Errorf("Directory.Write creating file %s: %w", fullPath, err)
+	}
 
 	for _, s := range d.subscriptions {
 		s <- FileEvent{
-			Path: targetFile.Name(),
+			Path: fullPath,
 			Op:   OpCreate,
 		}
 	}
-	return targetFile.Name(), nil
+	return fullPath, nil
 }
 
 // Read accepts both relative and absolute paths or URIs.
-- 
2.43.0


From 4d3bd38dbee871be95605073ce63167914511597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 41/68] fix: a local directory never has partially copied files

---
 storage/locations/local_directory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 5e43ee6..9d387a6 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -178,10 +178,14 @@ func (d *LocalDirectory) Copy(sourceURI string, destination string) error {
 	}
 
 	// Then do a copy
-	cmd := exec.Command("cp", sourceURI, destinationPath)
+	tempPath := destinationPath + ".tmp"
+	cmd := exec.Command("cp", sourceURI, tempPath)
 	if out, err := cmd.CombinedOutput(); err != nil {
 		return fmt.Errorf("cp command %s: %w", out, err)
 	}
+	if err := os.Rename(tempPath, destinationPath); err != nil {
+		return fmt.Errorf("copying to file %s: %w", destinationPath, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 88191241a6d25a7f32903b7e2bf620d8466682bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 42/68] fix: removing files from a local directory continues
 after a missing one

---
 storage/locations/local_directory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 9d387a6..9feccf6 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -101,7 +101,7 @@ func (d *LocalDirectory) Remove(paths ...string) error {
 			if errors.As(err, &pathErr) {
 				// Ignore path errors to match how S3 doesn't error if a file
 				// doesn't exist.
-				return nil
+				continue
 			}
 			return fmt.Errorf("removing file %s: %w", fullPath, err)
 		}
-- 
2.43.0


From 107335d5d68ce3e4364631151a52a12c99714984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 43/68] fix: a job restarts from the checkpoint with the
 highest id

---
 storage/snapshots/savepoint_artifact.go | 20 ++++++++++++++++++--
 storage/snapshots/store.go              | 15 +++++++++------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index c8fc41c..b6da248 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"path"
 	"path/filepath"
+	"strings"
 
 	"reduction.dev/reduction/dkv/recovery"
 	"reduction.dev/reduction/proto/snapshotpb"
@@ -104,8 +105,23 @@ func parseDKVURI(uri string) (opID, base string, err error) {
 	return opPrefix, baseFileName, nil
 }
 
-// Create a URL safe encoding to create a path segment. Lexicographic order will
-// be descending such that later checkpoints will appear first in a file list.
+// Get the checkpoint id from a path created with pathSegment, either
+// job-<segment>.snapshot or <segment>/job.savepoint.
+func snapshotFileID(filePath string) (id uint64, ok bool) {
+	dir, base := path.Split(filePath)
+	segment := path.Base(dir)
+	if base != "job.savepoint" {
+		segment = strings.TrimSuffix(strings.TrimPrefix(base, "job-"), ".snapshot")
+	}
+	buf, err := base64.RawURLEncoding.DecodeString(segment)
+	if err != nil || len(buf) != 8 {
+		return 0, false
+	}
+	return math.MaxUint64 - binary.BigEndian.Uint64(buf), true
+}
+
+// Create a URL safe encoding to create a path segment. The encoding doesn't keep
+// the order of the ids.
 func pathSegment(id uint64) string {
 	reversed := math.MaxUint64 - id
 	buf := make([]byte, 8)
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 7aee835..dca8ecc 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -297,17 +297,20 @@ func (s *Store) LoadCheckpoint() error {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
 	} else {
-		// For a new job, check the file store for first (latest) snapshot file.
-		// Checkpoint IDs are encoded so that files will be in reverse chronological
-		// order.
+		// For a new job, check the file store for the snapshot file with the
+		// highest checkpoint ID.
 		var latestCheckpointFile string
+		var latestID uint64
 		for filePath, err := range s.fileStore.List() {
 			if err != nil {
 				return err
 			}
-			if filepath.Ext(filePath) == ".snapshot" {
-				latestCheckpointFile = filePath
-				break
+			if filepath.Ext(filePath) != ".snapshot" {
+				continue
+			}
+			id, ok := snapshotFileID(filePath)
+			if ok && (latestCheckpointFile == "" || id > latestID) {
+				latestCheckpointFile, latestID = filePath, id
 			}
 		}
 
-- 
2.43.0


From 133cac4d8181a2d48a6125374d87578b0cbc0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 44/68] fix: a job started from a savepoint doesn't reuse
 checkpoint ids

---
 storage/snapshots/store.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index dca8ecc..9af0951 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -325,8 +325,22 @@ func (s *Store) LoadCheckpoint() error {
 		loadedCheckpoint = snap
 	}
 
-	// Set the initial checkpoint ID counter
+	// Set the initial checkpoint ID counter. When starting from a savepoint there
+	// may be later checkpoints and savepoints whose IDs can't be used again.
 	s.state.checkpointID = loadedCheckpoint.Id
+	if s.savepointURI != "" {
+		for filePath, err := range s.fileStore.List() {
+			if err != nil {
+				return err
+			}
+			if ext := filepath.Ext(filePath); ext != ".snapshot" && ext != ".savepoint" {
+				continue
+			}
+			if id, ok := snapshotFileID(filePath); ok {
+				s.state.checkpointID = max(s.state.checkpointID, id)
+			}
+		}
+	}
 
 	// Create a job snapshot from the loaded checkpoint
 	if len(loadedCheckpoint.SourceCheckpoints) != 1 {
-- 
2.43.0


From 1ee0784746681f1088333d0c6cff556df269c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 45/68] fix: savepoints in object stores can be restored

---
 storage/snapshots/savepoint_artifact.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index b6da248..3eb3a1d 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -57,7 +57,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 
 // Copy files from a savepoint into place to be read as checkpoints.
 func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepointURI string, jobCheckpoint *snapshotpb.JobCheckpoint) error {
-	spDir := filepath.Dir(savepointURI)
+	spDir, _ := path.Split(savepointURI) // filepath.Dir would change s3:// URIs
 
 	for _, opCkpt := range jobCheckpoint.GetOperatorCheckpoints() {
 		opID, baseFileName, err := parseDKVURI(opCkpt.DkvFileUri)
@@ -66,7 +66,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Read the checkpoints data
-		checkpointsPath := filepath.Join(spDir, "dkv", opID, baseFileName)
+		checkpointsPath := spDir + filepath.Join("dkv", opID, baseFileName)
 		cpData, err := fs.Read(checkpointsPath)
 		if err != nil {
 			return fmt.Errorf("reading checkpoints file (%s): %v", checkpointsPath, err)
@@ -86,7 +86,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 			}
 
 			// Source is a file referenced by a DKV checkpoint that's been copied to the savepoint directory
-			src := filepath.Join(spDir, "dkv", opPrefix, baseFileName)
+			src := spDir + filepath.Join("dkv", opPrefix, baseFileName)
 			if err := fs.Copy(src, file); err != nil {
 				return err
 			}
-- 
2.43.0


From b34912f84901e3f32080d3a4a779344bbead6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 46/68] fix: savepoints copy the files of their own checkpoint

---
 dkv/recovery/list_files.go              | 23 +++++++++++++++++++++--
 storage/snapshots/savepoint_artifact.go |  4 ++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/dkv/recovery/list_files.go b/dkv/recovery/list_files.go
index e07b3f9..1c0ca49 100644
--- a/dkv/recovery/list_files.go
+++ b/dkv/recovery/list_files.go
@@ -2,10 +2,26 @@ package recovery
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
+	"slices"
 )
 
+// ListFiles returns the URIs of the files of the latest checkpoint in a
+// checkpoints file.
 func ListFiles(reader io.Reader) ([]string, error) {
+	return listFiles(reader, func(docs []checkpointDocument) int { return len(docs) - 1 })
+}
+
+// ListCheckpointFiles returns the URIs of the files of one checkpoint in a
+// checkpoints file, which may list later checkpoints, too.
+func ListCheckpointFiles(reader io.Reader, ckptID uint64) ([]string, error) {
+	return listFiles(reader, func(docs []checkpointDocument) int {
+		return slices.IndexFunc(docs, func(doc checkpointDocument) bool { return uint64(doc.ID) == ckptID })
+	})
+}
+
+func listFiles(reader io.Reader, choose func(docs []checkpointDocument) int) ([]string, error) {
 	// Decode reader data into checkpoint list JSON document
 	data, err := io.ReadAll(reader)
 	if err != nil {
@@ -17,8 +33,11 @@ func ListFiles(reader io.Reader) ([]string, error) {
 		return nil, err
 	}
 
-	// Always use the latest checkpoint
-	ckpt := listDoc.Checkpoints[len(listDoc.Checkpoints)-1]
+	i := choose(listDoc.Checkpoints)
+	if i == -1 {
+		return nil, fmt.Errorf("checkpoint not found in checkpoints file")
+	}
+	ckpt := listDoc.Checkpoints[i]
 
 	fileNames := []string{}
 
diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index 3eb3a1d..6e37f47 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -26,7 +26,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 		}
 
 		// Get a list of URIs that the checkpoint references.
-		files, err := recovery.ListFiles(bytes.NewBuffer(checkpointsData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(checkpointsData), opCkpt.CheckpointId)
 		if err != nil {
 			return "", err
 		}
@@ -73,7 +73,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Get a list of referenced files to copy into place
-		files, err := recovery.ListFiles(bytes.NewBuffer(cpData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(cpData), opCkpt.CheckpointId)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c50f403f18380cf3258182ec31925fd543be493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 47/68] fix: later batches don't take the place of one whose
 fetch failed

A failed batch left no results, so the results after it were joined with
its placeholders and events passed the checkpoint barriers ahead of them.
Waiting for space or for the consumer ends with the context.
---
 batching/batching.go        |  4 +---
 batching/reorder_buffer.go  | 17 ++++++++++++++---
 batching/reorder_fetcher.go | 19 ++++++++++++++++---
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/batching/batching.go b/batching/batching.go
index 64edff3..4e70912 100644
--- a/batching/batching.go
+++ b/batching/batching.go
@@ -61,9 +61,7 @@ func (b *EventBatcher[T]) Add(event T) {
 		b.timer.Set(b.maxDelay, func() {
 			select {
 			case <-b.ctx.Done():
-				return
-			default:
-				b.BatchTimedOut <- currentBatchToken
+			case b.BatchTimedOut <- currentBatchToken:
 			}
 		})
 	}
diff --git a/batching/reorder_buffer.go b/batching/reorder_buffer.go
index 936ac6b..742cb8c 100644
--- a/batching/reorder_buffer.go
+++ b/batching/reorder_buffer.go
@@ -1,6 +1,7 @@
 package batching
 
 import (
+	"context"
 	"iter"
 	"sync"
 )
@@ -37,12 +38,22 @@ func (b *ReorderBuffer[T]) Add(seq uint64, item T) {
 // Reserve a spot in the buffer and return the sequence number. This method
 // blocks until the buffer is no longer full.
 func (b *ReorderBuffer[T]) Reserve() uint64 {
-	b.reserved <- struct{}{}
-	seq := b.nextSeqNum
-	b.nextSeqNum++
+	seq, _ := b.reserve(context.Background())
 	return seq
 }
 
+// reserve a spot like Reserve, unless the context is done first.
+func (b *ReorderBuffer[T]) reserve(ctx context.Context) (seq uint64, ok bool) {
+	select {
+	case b.reserved <- struct{}{}:
+	case <-ctx.Done():
+		return 0, false
+	}
+	seq = b.nextSeqNum
+	b.nextSeqNum++
+	return seq, true
+}
+
 // Drain iterates over the ordered items of the buffer. Only one drain iterator
 // can run at a time so this is safe to call concurrently.
 func (b *ReorderBuffer[T]) Drain() iter.Seq[T] {
diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 491f9ea..fd676a5 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -82,17 +82,30 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 		return
 	}
 
-	seqNum := d.buffer.Reserve()
+	seqNum, ok := d.buffer.reserve(ctx)
 	d.flushMu.Unlock()
+	if !ok {
+		return
+	}
 	go func() {
 		result, err := d.fetchBatch(ctx, events)
 		if err != nil {
-			d.errChan <- err
+			// The results of later batches may not take the place of this one's so
+			// there is no output beyond it.
+			select {
+			case d.errChan <- err:
+			case <-ctx.Done():
+			}
+			return
 		}
 		d.buffer.Add(seqNum, result)
 		for resp := range d.buffer.Drain() {
 			for _, result := range resp {
-				d.Output <- result
+				select {
+				case d.Output <- result:
+				case <-ctx.Done():
+					return
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 2321ff45b1450df619b131f17d77dd14cfd17082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 48/68] fix: redeploying a source runner stops its last
 deployment

The event loop, sender and operator batchers of a deployment kept running
after the next one and shared its reader, channels and watermark: records
were sent from old positions and split positions were reported for barriers
at another place. A failed batch is not followed by later ones, requests of
dropped assemblies have no effect on later deployments and errors of the
event loop stop the source runner instead of leaving it idle.
---
 rpc/source_runner_connect_handler.go     |   2 +-
 workers/sourcerunner/operator_cluster.go |  30 ++-
 workers/sourcerunner/source_runner.go    | 310 +++++++++++++++--------
 3 files changed, 235 insertions(+), 107 deletions(-)

diff --git a/rpc/source_runner_connect_handler.go b/rpc/source_runner_connect_handler.go
index 8ef9962..bc906a4 100644
--- a/rpc/source_runner_connect_handler.go
+++ b/rpc/source_runner_connect_handler.go
@@ -32,7 +32,7 @@ func (s *SourceRunnerConnectHandler) StartCheckpoint(ctx context.Context, req *c
 }
 
 func (s *SourceRunnerConnectHandler) AssignSplits(ctx context.Context, req *connect.Request[workerpb.AssignSplitsRequest]) (*connect.Response[workerpb.Empty], error) {
-	err := s.sourceRunner.HandleAssignSplits(req.Msg.Splits)
+	err := s.sourceRunner.HandleAssignSplits(ctx, req.Msg.Splits)
 	return connect.NewResponse(&workerpb.Empty{}), err
 }
 
diff --git a/workers/sourcerunner/operator_cluster.go b/workers/sourcerunner/operator_cluster.go
index 6a9df88..fbc24ce 100644
--- a/workers/sourcerunner/operator_cluster.go
+++ b/workers/sourcerunner/operator_cluster.go
@@ -3,6 +3,7 @@ package sourcerunner
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	gproto "google.golang.org/protobuf/proto"
 	"reduction.dev/reduction/batching"
@@ -22,12 +23,13 @@ type newClusterParams struct {
 	operators      []proto.Operator
 	batchingParams batching.EventBatcherParams
 	errChan        chan<- error
+	senders        *sync.WaitGroup // Tracks the processes sending to operators
 }
 
 func newOperatorCluster(ctx context.Context, params *newClusterParams) *operatorCluster {
 	operators := make([]*batchingOperator, len(params.operators))
 	for i, op := range params.operators {
-		operators[i] = newBatchingOperator(ctx, op, params.batchingParams, params.errChan)
+		operators[i] = newBatchingOperator(ctx, op, params.batchingParams, params.errChan, params.senders)
 	}
 	return &operatorCluster{
 		keyGroupCount: params.keyGroupCount,
@@ -66,28 +68,34 @@ type batchingOperator struct {
 	batcher *batching.EventBatcher[*workerpb.Event]
 	errChan chan<- error
 	batches chan []*workerpb.Event
+	ctx     context.Context
 }
 
-func newBatchingOperator(ctx context.Context, op proto.Operator, params batching.EventBatcherParams, errChan chan<- error) *batchingOperator {
+func newBatchingOperator(ctx context.Context, op proto.Operator, params batching.EventBatcherParams, errChan chan<- error, senders *sync.WaitGroup) *batchingOperator {
 	o := &batchingOperator{
 		op:      op,
 		batcher: batching.NewEventBatcher[*workerpb.Event](ctx, params),
 		batches: make(chan []*workerpb.Event),
 		errChan: errChan,
+		ctx:     ctx,
 	}
 
+	senders.Add(1)
 	go func() {
+		defer senders.Done()
 		for {
 			select {
 			case <-ctx.Done():
 				return
 			case batchToken := <-o.batcher.BatchTimedOut:
 				if err := o.op.HandleEventBatch(ctx, o.batcher.Flush(batchToken)); err != nil {
-					o.errChan <- err
+					o.fail(err)
+					return
 				}
 			case batch := <-o.batches:
 				if err := o.op.HandleEventBatch(ctx, batch); err != nil {
-					o.errChan <- err
+					o.fail(err)
+					return
 				}
 			}
 		}
@@ -96,6 +104,15 @@ func newBatchingOperator(ctx context.Context, op proto.Operator, params batching
 	return o
 }
 
+// fail reports an error. The operator may not receive any later batches because
+// it would miss the events of the failed one.
+func (o *batchingOperator) fail(err error) {
+	select {
+	case o.errChan <- err:
+	case <-o.ctx.Done():
+	}
+}
+
 func (o *batchingOperator) HandleEvent(event *workerpb.Event) {
 	o.batcher.Add(event)
 	if o.batcher.IsFull() {
@@ -104,5 +121,8 @@ func (o *batchingOperator) HandleEvent(event *workerpb.Event) {
 }
 
 func (o *batchingOperator) Flush() {
-	o.batches <- o.batcher.Flush(batching.CurrentBatch)
+	select {
+	case o.batches <- o.batcher.Flush(batching.CurrentBatch):
+	case <-o.ctx.Done():
+	}
 }
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 6a9b555..2db373f 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -5,7 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
-	"math"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -27,37 +27,45 @@ import (
 type SourceRunner struct {
 	host                string // A host name used to contract this SourceRunner
 	ID                  string
-	sourceReader        connectors.SourceReader
 	userHandler         proto.Handler
-	operators           *operatorCluster
 	job                 proto.Job
-	watermarker         *wmark.Watermarker
-	watermarkTicker     *time.Ticker
 	clock               clocks.Clock
 	isHalting           atomic.Bool
-	stopLoop            context.CancelFunc      // Signal to stop the event loop if running
 	stop                context.CancelCauseFunc // Signal to stop all source runner processes
 	operatorFactory     proto.OperatorFactory
-	sourceReaderFactory func(*jobconfigpb.Source) connectors.SourceReader
+	sourceReaderFactory func(context.Context, *jobconfigpb.Source) connectors.SourceReader
 	errChan             chan error
 	batchingParams      batching.EventBatcherParams
-	outputStream        chan *workerpb.Event
-	keyEventChannel     *batching.ReorderFetcher[[]byte, []*handlerpb.KeyedEvent]
-	initDone            chan struct{}                 // Used by HandleStart to wait until Start finishes initializing
-	sourceChannel       *connectors.ReadSourceChannel // The channel to read events from the source
-
-	// Checkpoint barriers are enqueued for processing in series with other events.
-	checkpointBarrier chan *workerpb.CheckpointBarrier
+	initDone            chan struct{} // Used by HandleStart to wait until Start finishes initializing
 
 	Logger         *slog.Logger
 	registerPoller *clocks.Ticker
 
-	// Add a context field to SourceRunner for use in HandleAssignSplits
-	ctx context.Context
-
 	runnerCtx context.Context // Context tied to SourceRunner lifecycle
 
-	startSourceChannelCh chan struct{} // signal to start the source channel
+	deployMu   sync.Mutex // Serializes deploying
+	mu         sync.Mutex // Guards deployment
+	deployment *deployment
+}
+
+// A deployment is everything that belongs to a single assembly of the job.
+// Nothing of it may have effects after the source runner is deployed again.
+type deployment struct {
+	ctx    context.Context
+	cancel context.CancelFunc
+
+	// Processes which send to operators
+	senders sync.WaitGroup
+
+	sourceReader    connectors.SourceReader
+	sourceChannel   *connectors.ReadSourceChannel // The channel to read events from the source
+	operators       *operatorCluster
+	watermarker     *wmark.Watermarker
+	outputStream    chan *workerpb.Event
+	keyEventChannel *batching.ReorderFetcher[[]byte, []*handlerpb.KeyedEvent]
+
+	// Checkpoint barriers are enqueued for processing in series with other events.
+	checkpointBarrier chan *workerpb.CheckpointBarrier
 
 	splitsWereAssigned chan []*workerpb.SourceSplit // channel for split assignment requests
 }
@@ -81,35 +89,31 @@ func New(params NewParams) *SourceRunner {
 
 	log := slog.With("instanceID", "source-runner-"+srID[len(srID)-4:])
 	sr := &SourceRunner{
-		ID:                  srID,
-		host:                params.Host,
-		job:                 params.Job,
-		watermarker:         &wmark.Watermarker{},
-		watermarkTicker:     time.NewTicker(math.MaxInt64), // initialize with ticker that never ticks
-		userHandler:         params.UserHandler,
-		checkpointBarrier:   make(chan *workerpb.CheckpointBarrier, 1),
-		Logger:              log,
-		clock:               params.Clock,
-		stopLoop:            func() {},          // initialize with noop
-		stop:                func(err error) {}, // initialize with noop
-		operatorFactory:     params.OperatorFactory,
-		sourceReaderFactory: params.SourceReaderFactory,
-		errChan:             make(chan error),
-		batchingParams:      params.EventBatching,
-		outputStream:        make(chan *workerpb.Event, 1_000),
-		initDone:            make(chan struct{}),
-		splitsWereAssigned:  make(chan []*workerpb.SourceSplit, 1),
+		ID:              srID,
+		host:            params.Host,
+		job:             params.Job,
+		userHandler:     params.UserHandler,
+		Logger:          log,
+		clock:           params.Clock,
+		stop:            func(err error) {}, // initialize with noop
+		operatorFactory: params.OperatorFactory,
+		errChan:         make(chan error),
+		batchingParams:  params.EventBatching,
+		initDone:        make(chan struct{}),
 	}
 
-	if sr.sourceReaderFactory == nil {
-		sr.sourceReaderFactory = func(source *jobconfigpb.Source) connectors.SourceReader {
+	sr.sourceReaderFactory = func(_ context.Context, source *jobconfigpb.Source) connectors.SourceReader {
+		return params.SourceReaderFactory(source)
+	}
+	if params.SourceReaderFactory == nil {
+		sr.sourceReaderFactory = func(ctx context.Context, source *jobconfigpb.Source) connectors.SourceReader {
 			sourceConfig, err := config.SourceFromProto(source)
 			if err != nil {
 				panic(fmt.Sprintf("invalid source config: %v", err))
 			}
 			return sourceConfig.NewSourceReader(connectors.SourceReaderHooks{
 				NotifySplitsFinished: func(splitIDs []string) {
-					sr.job.NotifySplitsFinished(sr.runnerCtx, sr.ID, splitIDs)
+					sr.job.NotifySplitsFinished(ctx, sr.ID, splitIDs)
 				},
 			})
 		}
@@ -145,15 +149,6 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 		cancel(result)
 	}()
 
-	r.keyEventChannel = batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
-		Batcher: batching.NewEventBatcher[[]byte](ctx, r.batchingParams),
-		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
-			return r.userHandler.KeyEventBatch(ctx, events)
-		},
-		ErrChan:    r.errChan,
-		BufferSize: r.batchingParams.MaxSize,
-	})
-
 	close(r.initDone) // Signal that initialization is done
 
 	<-ctx.Done() // Afterward begin shutdown process
@@ -161,8 +156,6 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 	r.Logger.Info("starting shutdown")
 	defer r.Logger.Info("shutdown complete")
 
-	r.stopLoop()
-	r.watermarkTicker.Stop()
 	r.registerPoller.Stop()
 
 	if !r.isHalting.Load() {
@@ -198,36 +191,92 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 		panic("exactly one source required")
 	}
 
-	r.watermarkTicker = time.NewTicker(time.Millisecond * 200)
+	r.deployMu.Lock()
+	defer r.deployMu.Unlock()
+
+	// Stop the previous deployment before starting this one so that none of its
+	// events are sent after the operators are deployed again.
+	r.mu.Lock()
+	previous := r.deployment
+	r.deployment = nil
+	r.mu.Unlock()
+	if previous != nil {
+		previous.cancel()
+		previous.senders.Wait()
+	}
 
-	deploymentCtx, cancel := context.WithCancel(context.Background())
-	r.stopLoop = cancel
-	r.ctx = deploymentCtx // assign loopCtx to r.ctx for later use
+	deploymentCtx, cancel := context.WithCancel(r.runnerCtx)
+	d := &deployment{
+		ctx:                deploymentCtx,
+		cancel:             cancel,
+		watermarker:        &wmark.Watermarker{},
+		outputStream:       make(chan *workerpb.Event, 1_000),
+		checkpointBarrier:  make(chan *workerpb.CheckpointBarrier, 1),
+		splitsWereAssigned: make(chan []*workerpb.SourceSplit, 1),
+	}
 
-	r.sourceReader = r.sourceReaderFactory(msg.Sources[0])
-	r.sourceChannel = connectors.NewReadSourceChannel(r.sourceReader)
+	d.sourceReader = r.sourceReaderFactory(d.ctx, msg.Sources[0])
+	d.sourceChannel = connectors.NewReadSourceChannel(d.sourceReader)
+
+	// Errors of a deployment stop the source runner, unless the deployment ended.
+	errChan := make(chan error)
+	go func() {
+		for {
+			select {
+			case err := <-errChan:
+				if d.ctx.Err() == nil {
+					r.fail(d, err)
+				}
+			case <-d.ctx.Done():
+				return
+			}
+		}
+	}()
+
+	d.keyEventChannel = batching.NewReorderFetcher(d.ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
+		Batcher: batching.NewEventBatcher[[]byte](d.ctx, r.batchingParams),
+		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
+			return r.userHandler.KeyEventBatch(ctx, events)
+		},
+		ErrChan:    errChan,
+		BufferSize: r.batchingParams.MaxSize,
+	})
 
 	ops := make([]proto.Operator, len(msg.Operators))
 	for i, op := range msg.Operators {
 		ops[i] = r.operatorFactory(r.ID, op)
 	}
-	r.operators = newOperatorCluster(r.ctx, &newClusterParams{
+	d.operators = newOperatorCluster(d.ctx, &newClusterParams{
 		keyGroupCount:  int(msg.KeyGroupCount),
 		operators:      ops,
 		batchingParams: r.batchingParams,
-		errChan:        r.errChan,
+		errChan:        errChan,
+		senders:        &d.senders,
 	})
 
+	r.mu.Lock()
+	r.deployment = d
+	r.mu.Unlock()
+
 	go func() {
-		if err := r.processEvents(r.ctx); err != nil {
+		if err := r.processEvents(d); err != nil && d.ctx.Err() == nil {
 			r.Logger.Error("processEvents stopped with error", "err", err)
+			r.fail(d, err)
 		}
 		cancel()
 	}()
+	d.senders.Add(1)
 	go func() {
-		for opEvent := range r.outputStream {
-			if err := r.sendOperatorEvent(opEvent); err != nil {
-				r.errChan <- err
+		defer d.senders.Done()
+		for {
+			select {
+			case <-d.ctx.Done():
+				return
+			case opEvent := <-d.outputStream:
+				if err := d.sendOperatorEvent(opEvent); err != nil && d.ctx.Err() == nil {
+					r.fail(d, err)
+					return
+				}
 			}
 		}
 	}()
@@ -235,40 +284,52 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	return nil
 }
 
-func (r *SourceRunner) processEvents(ctx context.Context) error {
+// fail stops a deployment and the source runner with it.
+func (r *SourceRunner) fail(d *deployment, err error) {
+	d.cancel()
+	select {
+	case r.errChan <- err:
+	case <-r.runnerCtx.Done():
+	}
+}
+
+func (r *SourceRunner) processEvents(d *deployment) error {
+	watermarkTicker := time.NewTicker(time.Millisecond * 200)
+	defer watermarkTicker.Stop()
+
+	ctx := d.ctx
+	sourceEvents := d.sourceChannel.C
+
 	for {
 		select {
 		case <-ctx.Done():
 			r.Logger.Info("stopping source runner loop", "cause", context.Cause(ctx))
 			return nil
-		case splits := <-r.splitsWereAssigned:
-			if err := r.sourceReader.AssignSplits(splits); err != nil {
+		case splits := <-d.splitsWereAssigned:
+			if err := d.sourceReader.AssignSplits(splits); err != nil {
 				return err
 			}
 			if len(splits) > 0 {
-				if r.sourceChannel == nil {
-					return fmt.Errorf("sourceChannel is nil")
-				}
-				r.sourceChannel.Start(r.ctx)
+				d.sourceChannel.Start(ctx)
 			}
-		case <-r.watermarkTicker.C:
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}}
-		case barrier := <-r.checkpointBarrier:
-			if err := r.createCheckpoint(barrier.CheckpointId); err != nil {
+		case <-watermarkTicker.C:
+			d.output(&workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
+		case barrier := <-d.checkpointBarrier:
+			if err := r.createCheckpoint(d, barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}}
-		case readFunc, ok := <-r.sourceChannel.C:
+			d.output(&workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}})
+		case readFunc, ok := <-sourceEvents:
 			if !ok {
 				// Channel closed, Flush events, Send watermark, send source complete event
-				r.keyEventChannel.Flush(ctx)
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{
+				d.keyEventChannel.Flush(ctx)
+				d.output(&workerpb.Event{Event: &workerpb.Event_Watermark{
 					Watermark: &workerpb.Watermark{},
-				}}
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_SourceComplete{}}
+				}})
+				d.output(&workerpb.Event{Event: &workerpb.Event_SourceComplete{}})
 
 				// Stop reading from sourceChannel
-				r.sourceChannel = nil
+				sourceEvents = nil
 				continue
 			}
 
@@ -285,24 +346,58 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 
 			// Process the events
 			for _, e := range events {
-				r.sendKeyEvent(ctx, e)
+				d.sendKeyEvent(e)
 			}
 		}
 	}
 }
 
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
-	r.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}
+	d := r.currentDeployment()
+	if d == nil {
+		r.Logger.Warn("ignoring checkpoint without a deployment", "checkpointID", id)
+		return
+	}
+
+	// A cancelled request was of another deployment.
+	if ctx.Err() != nil {
+		return
+	}
+
+	select {
+	case d.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}:
+	case <-ctx.Done():
+	case <-d.ctx.Done():
+	}
 }
 
-func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
+func (r *SourceRunner) currentDeployment() *deployment {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.deployment
+}
+
+// output enqueues an event for operators.
+func (d *deployment) output(event *workerpb.Event) {
+	select {
+	case d.outputStream <- event:
+	case <-d.ctx.Done():
+	}
+}
+
+func (d *deployment) sendOperatorEvent(event *workerpb.Event) error {
 	switch typedEvent := event.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
 		// Get the async result for this placeholder event
-		asyncResult := <-r.keyEventChannel.Output
+		var asyncResult []*handlerpb.KeyedEvent
+		select {
+		case asyncResult = <-d.keyEventChannel.Output:
+		case <-d.ctx.Done():
+			return nil
+		}
 		for _, event := range asyncResult {
-			r.watermarker.AdvanceTime(event.Timestamp.AsTime())
-			r.operators.routeEvent(event.Key, &workerpb.Event{
+			d.watermarker.AdvanceTime(event.Timestamp.AsTime())
+			d.operators.routeEvent(event.Key, &workerpb.Event{
 				Event: &workerpb.Event_KeyedEvent{
 					KeyedEvent: event,
 				},
@@ -310,32 +405,32 @@ func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
 		}
 		return nil
 	case *workerpb.Event_Watermark:
-		typedEvent.Watermark.Timestamp = timestamppb.New(r.watermarker.CurrentWatermark())
-		return r.operators.broadcastEvent(typedEvent.Watermark)
+		typedEvent.Watermark.Timestamp = timestamppb.New(d.watermarker.CurrentWatermark())
+		return d.operators.broadcastEvent(typedEvent.Watermark)
 	case *workerpb.Event_CheckpointBarrier:
-		return r.operators.broadcastEvent(typedEvent.CheckpointBarrier)
+		return d.operators.broadcastEvent(typedEvent.CheckpointBarrier)
 	case *workerpb.Event_SourceComplete:
-		if err := r.operators.broadcastEvent(typedEvent.SourceComplete); err != nil {
+		if err := d.operators.broadcastEvent(typedEvent.SourceComplete); err != nil {
 			return err
 		}
-		r.operators.flush()
+		d.operators.flush()
 		return nil
 	default:
 		return fmt.Errorf("unknown operator event type: %T", typedEvent)
 	}
 }
 
-func (r *SourceRunner) sendKeyEvent(ctx context.Context, event []byte) {
+func (d *deployment) sendKeyEvent(event []byte) {
 	// Put a placeholder on the output stream that will be joined with the async
 	// KeyEvent result.
-	r.outputStream <- &workerpb.Event{Event: &workerpb.Event_KeyedEvent{}}
-	r.keyEventChannel.Add(ctx, event)
+	d.output(&workerpb.Event{Event: &workerpb.Event_KeyedEvent{}})
+	d.keyEventChannel.Add(d.ctx, event)
 }
 
 // createCheckpoint gets checkpoint data from the source reader and notifies the job.
-func (r *SourceRunner) createCheckpoint(id uint64) error {
-	data := r.sourceReader.Checkpoint()
-	return r.job.OnSourceRunnerCheckpointComplete(context.Background(), &jobpb.SourceRunnerCheckpointCompleteRequest{
+func (r *SourceRunner) createCheckpoint(d *deployment, id uint64) error {
+	data := d.sourceReader.Checkpoint()
+	return r.job.OnSourceRunnerCheckpointComplete(d.ctx, &jobpb.SourceRunnerCheckpointCompleteRequest{
 		CheckpointId:   id,
 		SplitStates:    data,
 		SourceRunnerId: r.ID,
@@ -343,10 +438,23 @@ func (r *SourceRunner) createCheckpoint(id uint64) error {
 }
 
 // HandleAssignSplits is invoked to assign new splits and start reading from them.
-func (r *SourceRunner) HandleAssignSplits(splits []*workerpb.SourceSplit) error {
-	if r.sourceReader == nil {
+func (r *SourceRunner) HandleAssignSplits(ctx context.Context, splits []*workerpb.SourceSplit) error {
+	d := r.currentDeployment()
+	if d == nil {
 		return fmt.Errorf("sourceReader is not initialized")
 	}
-	r.splitsWereAssigned <- splits
-	return nil
+
+	// A cancelled request was of another deployment.
+	if ctx.Err() != nil {
+		return ctx.Err()
+	}
+
+	select {
+	case d.splitsWereAssigned <- splits:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-d.ctx.Done():
+		return fmt.Errorf("splits assigned to a stopped deployment: %w", d.ctx.Err())
+	}
 }
-- 
2.43.0


From fdba72bc1d3d23f398aa7b02bccad19deaa6cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 49/68] fix: a fetcher's output stops at the first undelivered
 result

---
 batching/reorder_fetcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index fd676a5..13516ed 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -101,6 +101,10 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 		d.buffer.Add(seqNum, result)
 		for resp := range d.buffer.Drain() {
 			for _, result := range resp {
+				// Output stops at the first result that couldn't be delivered.
+				if ctx.Err() != nil {
+					return
+				}
 				select {
 				case d.Output <- result:
 				case <-ctx.Done():
-- 
2.43.0


From cc70add3e1a97370ff048d77c756186efe416de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 50/68] fix: the snapshot store can drop a pending snapshot and
 wait for those being written

---
 storage/snapshots/store.go | 42 ++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 9af0951..c2cbbd6 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -2,6 +2,7 @@ package snapshots
 
 import (
 	"bytes"
+	"context"
 	"errors"
 	"fmt"
 	"log/slog"
@@ -18,6 +19,10 @@ import (
 
 var ErrCheckpointInProgress = errors.New("checkpoint in progress")
 
+// ErrNotPending is returned for contributions to a snapshot that isn't pending,
+// for instance because its assembly was dropped.
+var ErrNotPending = errors.New("checkpoint is not pending")
+
 type Store struct {
 	fileStore                  locations.StorageLocation
 	savepointsPath             string
@@ -121,15 +126,27 @@ func (s *Store) CreateSavepoint(operatorIDs, sourceRunnerIDs []string) (cpID uin
 	return s.state.checkpointID, true, nil
 }
 
+// DiscardPending drops the pending snapshot, which can't complete once its
+// assembly was dropped.
+func (s *Store) DiscardPending() {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
+	if s.state.pendingSnapshot != nil {
+		s.log.Info("discarding pending snapshot", "id", s.state.pendingSnapshot.id)
+		s.state.pendingSnapshot = nil
+	}
+}
+
 func (s *Store) AddOperatorSnapshot(req *snapshotpb.OperatorCheckpoint) error {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
 
 	if s.state.pendingSnapshot == nil {
-		return fmt.Errorf("operator %s tried to add to job checkpoint %d but there is no pending checkpoint", req.OperatorId, req.CheckpointId)
+		return fmt.Errorf("operator %s tried to add to job checkpoint %d but there is no pending checkpoint: %w", req.OperatorId, req.CheckpointId, ErrNotPending)
 	}
 	if s.state.pendingSnapshot.id != req.CheckpointId {
-		return fmt.Errorf("operator %s tried to add to job checkpoint %d but pending checkpoint is %d", req.OperatorId, req.CheckpointId, s.state.pendingSnapshot.id)
+		return fmt.Errorf("operator %s tried to add to job checkpoint %d but pending checkpoint is %d: %w", req.OperatorId, req.CheckpointId, s.state.pendingSnapshot.id, ErrNotPending)
 	}
 
 	if err := s.state.pendingSnapshot.addOperatorSnapshot(req); err != nil {
@@ -148,10 +165,10 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 	defer s.stateMu.Unlock()
 
 	if s.state.pendingSnapshot == nil {
-		return fmt.Errorf("source runner %s tried to add to job checkpoint %d but there is no pending snapshot", ckpt.SourceRunnerId, ckpt.CheckpointId)
+		return fmt.Errorf("source runner %s tried to add to job checkpoint %d but there is no pending snapshot: %w", ckpt.SourceRunnerId, ckpt.CheckpointId, ErrNotPending)
 	}
 	if s.state.pendingSnapshot.id != ckpt.CheckpointId {
-		return fmt.Errorf("source runner %s tried to add to job checkpoint %d but pending checkpoint is %d", ckpt.SourceRunnerId, ckpt.CheckpointId, s.state.pendingSnapshot.id)
+		return fmt.Errorf("source runner %s tried to add to job checkpoint %d but pending checkpoint is %d: %w", ckpt.SourceRunnerId, ckpt.CheckpointId, s.state.pendingSnapshot.id, ErrNotPending)
 	}
 
 	err := s.state.pendingSnapshot.addSourceRunnerSnapshot(ckpt)
@@ -274,6 +291,23 @@ func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 	return nil
 }
 
+// LatestCheckpoint returns the checkpoint to restart from. It waits until all
+// snapshots that are complete were written.
+func (s *Store) LatestCheckpoint(ctx context.Context) (*snapshotpb.JobCheckpoint, error) {
+	s.stateMu.Lock()
+	published := s.state.published
+	s.stateMu.Unlock()
+
+	if published != nil {
+		select {
+		case <-published:
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		}
+	}
+	return s.CurrentCheckpoint(), nil
+}
+
 // LoadCheckpoint loads the latest checkpoint from disk and stores it in
 // memory.
 func (s *Store) LoadCheckpoint() error {
-- 
2.43.0


From cc1ccccd98fe4a00c631fcc75a052fab878db0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 51/68] fix: a job ends everything of a deployment when it
 leaves its assembly

The ticker, splitter and pending checkpoint of an earlier deployment went on
next to the new one's, a failed start left the job stuck, and a redeploy could
restart from an older checkpoint than the one being published.
---
 jobs/assembly.go           |  10 +-
 jobs/job.go                | 244 +++++++++++++++++++++++++++----------
 rpc/job_connect_handler.go |   2 +-
 3 files changed, 186 insertions(+), 70 deletions(-)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index c221bed..897b802 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -50,7 +50,7 @@ func (a *Assembly) Healthy(registry NodeRegistry) (bool, string) {
 }
 
 // Start tells the assembly of nodes to begin working from a checkpoint
-func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) error {
+func (a *Assembly) Deploy(ctx context.Context, cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) error {
 	// Gather attributes source runner messages
 	srIdentities := make([]*jobpb.NodeIdentity, len(a.sourceRunners))
 	srIDs := make([]string, len(a.sourceRunners))
@@ -65,7 +65,7 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		opIdentities[i] = &jobpb.NodeIdentity{Id: op.ID(), Host: op.Host()}
 	}
 
-	eg, gctx := errgroup.WithContext(context.Background())
+	eg, gctx := errgroup.WithContext(ctx)
 	for _, sr := range a.sourceRunners {
 		eg.Go(func() error {
 			return sr.Deploy(gctx, &workerpb.DeploySourceRunnerRequest{
@@ -83,7 +83,7 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 	if err := eg.Wait(); err != nil {
 		return err
 	}
-	eg, gctx = errgroup.WithContext(context.Background())
+	eg, gctx = errgroup.WithContext(ctx)
 
 	// Create list of ranges from checkpoints
 	ckptRanges := make([]partitioning.KeyGroupRange, len(ckpt.GetOperatorCheckpoints()))
@@ -110,8 +110,8 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 	return eg.Wait()
 }
 
-func (a *Assembly) AssignSplits(splits map[string][]*workerpb.SourceSplit) error {
-	g, gctx := errgroup.WithContext(context.Background())
+func (a *Assembly) AssignSplits(ctx context.Context, splits map[string][]*workerpb.SourceSplit) error {
+	g, gctx := errgroup.WithContext(ctx)
 	for _, sr := range a.sourceRunners {
 		g.Go(func() error {
 			return sr.AssignSplits(gctx, splits[sr.ID()])
diff --git a/jobs/job.go b/jobs/job.go
index d779939..13b32e4 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"log/slog"
 	"os"
+	"slices"
+	"sync/atomic"
 	"time"
 
 	"connectrpc.com/connect"
@@ -24,16 +26,24 @@ type Job struct {
 	snapshotStore       *snapshots.Store
 	log                 *slog.Logger
 	taskQueue           chan func() error
-	assembly            *Assembly
-	sourceSplitter      connectors.SourceSplitter
+	deployment          atomic.Pointer[deployment] // The current one, set by tasks
 	registry            *Registry
 	config              *config.Config
 	clock               clocks.Clock
-	checkpointTicker    *clocks.Ticker
 	operatorFactory     proto.OperatorFactory
 	sourceRunnerFactory proto.SourceRunnerFactory
 	status              *jobStatus
 	errChan             chan error
+	closed              bool // Set by tasks
+}
+
+// A deployment is an assembly and everything that ends with it.
+type deployment struct {
+	assembly         *Assembly
+	ctx              context.Context
+	cancel           context.CancelFunc
+	sourceSplitter   connectors.SourceSplitter
+	checkpointTicker *clocks.Ticker
 }
 
 type NewParams struct {
@@ -118,13 +128,15 @@ func New(params *NewParams) (*Job, error) {
 		errChan:             params.ErrChan,
 	}
 
-	ctx := context.TODO()
-
 	go job.processTaskQueue()
 
 	go func() {
 		for retained := range retainedCheckpointsUpdatedChan {
-			job.assembly.UpdateRetainedCheckpoints(ctx, retained)
+			if d := job.deployment.Load(); d != nil {
+				if err := d.assembly.UpdateRetainedCheckpoints(d.ctx, retained); err != nil {
+					job.log.Warn("failed to update retained checkpoints", "err", err)
+				}
+			}
 		}
 	}()
 
@@ -170,19 +182,28 @@ func (j *Job) HandleDeregisterSourceRunner(sr *jobpb.NodeIdentity) {
 }
 
 func (j *Job) HandleCreateSavepoint(ctx context.Context) (uint64, error) {
-	if j.status.Value() != StatusRunning {
-		return 0, fmt.Errorf("cannot create savepoint: job not running (status: %s)", j.status)
-	}
-
 	// Create a pending savepoint in the snapshot store to track savepointing.
-	checkpointID, created, err := j.snapshotStore.CreateSavepoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+	var d *deployment
+	var checkpointID uint64
+	var created bool
+	err := j.do(ctx, func() (err error) {
+		if j.status.Value() != StatusRunning {
+			return fmt.Errorf("cannot create savepoint: job not running (status: %s)", j.status)
+		}
+		d = j.deployment.Load()
+		checkpointID, created, err = j.snapshotStore.CreateSavepoint(d.assembly.OperatorIDs(), d.assembly.SourceRunnerIDs())
+		if err != nil {
+			return fmt.Errorf("failed creating savepoint: %v", err)
+		}
+		return nil
+	})
 	if err != nil {
-		return 0, fmt.Errorf("failed creating savepoint: %v", err)
+		return 0, err
 	}
 
 	// Only start the checkpoint if it's new. Otherwise the checkpoint was already in-flight.
 	if created {
-		if err := j.assembly.StartCheckpoint(ctx, checkpointID); err != nil {
+		if err := j.startCheckpoint(d, checkpointID); err != nil {
 			return 0, fmt.Errorf("failed starting snapshot: %w", err)
 		}
 	}
@@ -195,27 +216,61 @@ func (j *Job) HandleGetSavepointURI(ctx context.Context, savepointID uint64) (st
 }
 
 func (j *Job) HandleOperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
-	return j.snapshotStore.AddOperatorSnapshot(req)
+	return j.ignoreNotPending(j.snapshotStore.AddOperatorSnapshot(req))
 }
 
 func (j *Job) HandleSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
-	return j.snapshotStore.AddSourceSnapshot(req)
+	return j.ignoreNotPending(j.snapshotStore.AddSourceSnapshot(req))
 }
 
-func (j *Job) HandleNotifySplitsFinished(sourceRunnerID string, splitIDs []string) error {
-	if j.sourceSplitter == nil {
-		return connect.NewError(connect.CodeNotFound, fmt.Errorf("sourceSplitter not initialized"))
-	}
-	j.taskQueue <- func() error {
-		j.sourceSplitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
+// ignoreNotPending makes late contributions to a dropped checkpoint succeed so
+// that they don't stop the nodes which survived the failure of their assembly.
+func (j *Job) ignoreNotPending(err error) error {
+	if errors.Is(err, snapshots.ErrNotPending) {
+		j.log.Warn("ignoring checkpoint of a dropped assembly", "err", err)
 		return nil
 	}
-	return nil
+	return err
+}
+
+func (j *Job) HandleNotifySplitsFinished(ctx context.Context, sourceRunnerID string, splitIDs []string) error {
+	return j.do(ctx, func() error {
+		d := j.deployment.Load()
+		if d == nil || d.sourceSplitter == nil {
+			return connect.NewError(connect.CodeNotFound, fmt.Errorf("sourceSplitter not initialized"))
+		}
+		if !slices.Contains(d.assembly.SourceRunnerIDs(), sourceRunnerID) {
+			return connect.NewError(connect.CodeNotFound, fmt.Errorf("source runner %s isn't part of the assembly", sourceRunnerID))
+		}
+		d.sourceSplitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
+		return nil
+	})
 }
 
 func (j *Job) Close() {
-	j.checkpointTicker.Stop()
-	j.sourceSplitter.Close()
+	j.do(context.Background(), func() error {
+		j.closed = true
+		j.stopDeployment()
+		return nil
+	})
+}
+
+// do runs a task on the task queue and waits for it unless the context is done.
+func (j *Job) do(ctx context.Context, task func() error) error {
+	result := make(chan error, 1)
+	select {
+	case j.taskQueue <- func() error {
+		if ctx.Err() == nil {
+			result <- task()
+		} else {
+			result <- ctx.Err()
+		}
+		return nil
+	}:
+		return <-result
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
 
 // Process the next available task.
@@ -231,6 +286,10 @@ func (j *Job) processTaskQueue() {
 // Evaluate the cluster state and transition to paused or running. This
 // method and others that modify the cluster state are invoked serially.
 func (j *Job) evaluateClusterStatus() {
+	if j.closed {
+		return
+	}
+
 	// Evaluate the cluster state
 	if purged := j.registry.Purge(); len(purged) > 0 {
 		j.log.Info("registry purged", "nodes", purged)
@@ -240,7 +299,7 @@ func (j *Job) evaluateClusterStatus() {
 		j.log.Info("registry updated", append(
 			[]any{
 				slog.String("status", j.status.String()),
-				slog.String("assembly", j.assembly.String()),
+				slog.String("assembly", j.assembly().String()),
 			},
 			j.registry.Diagnostics()...)...)
 		j.registry.AcknowledgeChanges()
@@ -248,13 +307,10 @@ func (j *Job) evaluateClusterStatus() {
 
 	// Transition the job to new state if needed
 	switch j.status.Value() {
-	case StatusRunning:
-		if ok, reason := j.assembly.Healthy(j.registry); !ok {
+	case StatusRunning, StatusAssemblyStarting:
+		if ok, reason := j.assembly().Healthy(j.registry); !ok {
 			j.log.Info("assembly not healthy", "reason", reason)
-			j.status.Set(StatusPaused)
-			if j.checkpointTicker != nil {
-				j.checkpointTicker.Stop()
-			}
+			j.stopDeployment()
 		}
 
 	case StatusInit, StatusPaused:
@@ -269,46 +325,89 @@ func (j *Job) evaluateClusterStatus() {
 			break
 		}
 
+		ctx, cancel := context.WithCancel(context.Background())
+		d := &deployment{assembly: assembly, ctx: ctx, cancel: cancel}
+
+		// Create the source splitter
+		d.sourceSplitter = j.config.Sources[0].NewSourceSplitter(assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
+			AssignSplits: func(assignments map[string][]*workerpb.SourceSplit) {
+				if err := assembly.AssignSplits(ctx, assignments); err != nil {
+					j.failDeployment(d, fmt.Errorf("assigning splits: %w", err))
+				}
+			},
+		}, j.errChan)
+		j.snapshotStore.RegisterSourceSplitter(d.sourceSplitter)
+
 		j.status.Set(StatusAssemblyStarting)
-		j.assembly = assembly
+		j.deployment.Store(d)
 
 		go func() {
-			err := j.start()
-			if err != nil {
-				j.taskQueue <- func() error {
-					j.log.Error("failed to start job", "err", err)
-					j.status.Set(StatusPaused)
-					if j.checkpointTicker != nil {
-						j.checkpointTicker.Stop()
-					}
-					j.evaluateClusterStatus()
-					return nil
-				}
+			if err := j.start(d); err != nil {
+				j.failDeployment(d, fmt.Errorf("starting job: %w", err))
 			}
 		}()
 	}
 }
 
-// Transition the job to the running state.
-func (j *Job) start() error {
-	j.log.Info("starting")
+// The current assembly, if any.
+func (j *Job) assembly() *Assembly {
+	if d := j.deployment.Load(); d != nil {
+		return d.assembly
+	}
+	return nil
+}
 
-	// Get the job's current checkpoint which may be nil
-	ckpt := j.snapshotStore.CurrentCheckpoint()
+// stopDeployment drops the current assembly along with its pending checkpoint.
+// This method is invoked by tasks.
+func (j *Job) stopDeployment() {
+	d := j.deployment.Load()
+	if d == nil {
+		return
+	}
+	j.deployment.Store(nil)
+	j.status.Set(StatusPaused)
 
-	// Create the source splitter
-	j.sourceSplitter = j.config.Sources[0].NewSourceSplitter(j.assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
-		AssignSplits: func(assignments map[string][]*workerpb.SourceSplit) {
-			j.taskQueue <- func() error {
-				j.assembly.AssignSplits(assignments)
+	d.cancel()
+	if d.checkpointTicker != nil {
+		d.checkpointTicker.Stop()
+	}
+	if err := d.sourceSplitter.Close(); err != nil {
+		j.log.Error("failed to close source splitter", "err", err)
+	}
+	j.snapshotStore.DiscardPending()
+}
+
+// failDeployment drops the assembly of a deployment, unless that happened
+// already, and tries again.
+func (j *Job) failDeployment(d *deployment, err error) {
+	if d.ctx.Err() != nil {
+		return
+	}
+	go func() {
+		j.taskQueue <- func() error {
+			if j.deployment.Load() != d {
 				return nil
 			}
-		},
-	}, j.errChan)
-	j.snapshotStore.RegisterSourceSplitter(j.sourceSplitter)
+			j.log.Error("deployment failed", "err", err)
+			j.stopDeployment()
+			j.evaluateClusterStatus()
+			return nil
+		}
+	}()
+}
+
+// Transition the job to the running state.
+func (j *Job) start(d *deployment) error {
+	j.log.Info("starting")
+
+	// Get the job's current checkpoint which may be nil
+	ckpt, err := j.snapshotStore.LatestCheckpoint(d.ctx)
+	if err != nil {
+		return err
+	}
 
 	// Start the assembly
-	if err := j.assembly.Deploy(j.config, ckpt); err != nil {
+	if err := d.assembly.Deploy(d.ctx, j.config, ckpt); err != nil {
 		return fmt.Errorf("starting assembly: %v", err)
 	}
 
@@ -319,25 +418,42 @@ func (j *Job) start() error {
 	}
 
 	// Start the source splitter with a checkpoint if available and allow it to run background work.
-	j.sourceSplitter.Start(sourceCkpt)
+	if err := d.sourceSplitter.Start(sourceCkpt); err != nil {
+		return fmt.Errorf("starting source splitter: %w", err)
+	}
 
-	j.taskQueue <- func() error {
+	return j.do(d.ctx, func() error {
 		j.log.Info("running")
 		j.status.Set(StatusRunning)
 
-		j.checkpointTicker = j.clock.Every(1*time.Minute, func(tc *clocks.EveryContext) {
-			cpID, err := j.snapshotStore.CreateCheckpoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+		d.checkpointTicker = j.clock.Every(1*time.Minute, func(tc *clocks.EveryContext) {
+			var id uint64
+			err := j.do(d.ctx, func() (err error) {
+				id, err = j.snapshotStore.CreateCheckpoint(d.assembly.OperatorIDs(), d.assembly.SourceRunnerIDs())
+				return err
+			})
 			if errors.Is(err, snapshots.ErrCheckpointInProgress) {
 				tc.RetryIn(1 * time.Second)
 				return
 			}
-			if err := j.assembly.StartCheckpoint(context.Background(), cpID); err != nil {
+			if err == nil {
+				err = j.startCheckpoint(d, id)
+			}
+			if err != nil {
 				j.log.Error("failed to start checkpoint", "err", err)
 			}
 		}, "checkpointing")
 		j.evaluateClusterStatus()
 		return nil
-	}
+	})
+}
 
-	return nil
+// startCheckpoint sends the request to begin a created checkpoint. If that fails
+// the checkpoint can't complete with this deployment.
+func (j *Job) startCheckpoint(d *deployment, id uint64) error {
+	err := d.assembly.StartCheckpoint(d.ctx, id)
+	if err != nil {
+		j.failDeployment(d, fmt.Errorf("starting checkpoint %d: %w", id, err))
+	}
+	return err
 }
diff --git a/rpc/job_connect_handler.go b/rpc/job_connect_handler.go
index c9e414a..c328b68 100644
--- a/rpc/job_connect_handler.go
+++ b/rpc/job_connect_handler.go
@@ -56,7 +56,7 @@ func (l *JobConnectHandler) DeregisterSourceRunner(ctx context.Context, req *con
 }
 
 func (l *JobConnectHandler) NotifySplitsFinished(ctx context.Context, req *connect.Request[jobpb.NotifySplitsFinishedRequest]) (*connect.Response[jobpb.Empty], error) {
-	err := l.job.HandleNotifySplitsFinished(req.Msg.GetSourceRunnerId(), req.Msg.GetSplitIds())
+	err := l.job.HandleNotifySplitsFinished(ctx, req.Msg.GetSourceRunnerId(), req.Msg.GetSplitIds())
 	return connect.NewResponse(&jobpb.Empty{}), err
 }
 
-- 
2.43.0


From 710023910cc9a08abac73230ddcfdfe325f7740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 52/68] fix: requests about tables and checkpoints no longer
 race with a deployment

---
 workers/operator/operator.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index af39e22..bcdd8ea 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -57,6 +57,7 @@ type Operator struct {
 	timerRegistry  *TimerRegistry
 	sourceRunners  *upstreams
 	deployment     atomic.Pointer[deployment]
+	deployedDB     atomic.Pointer[dkv.DB] // Unset while deploying
 
 	checkpoint *checkpoint
 }
@@ -148,8 +149,10 @@ func (o *Operator) Start(ctx context.Context) error {
 	<-ctx.Done() // Afterward, begin shutdown
 
 	o.Logger.Info("stopping")
-	if err := o.db.Close(); err != nil {
-		return err
+	if db := o.deployedDB.Load(); db != nil {
+		if err := db.Close(); err != nil {
+			return err
+		}
 	}
 	if o.registerPoller != nil {
 		o.registerPoller.Stop()
@@ -242,6 +245,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
+	o.deployedDB.Store(o.db)
 	o.deployment.Store(&deployment{sourceRunnerIDs: slices.Clone(req.SourceRunnerIds), ended: make(chan struct{})})
 
 	if err := o.status.DidLoad(); err != nil {
@@ -263,6 +267,7 @@ func (o *Operator) endDeployment(ctx context.Context) error {
 		if d := o.deployment.Swap(nil); d != nil {
 			close(d.ended)
 		}
+		o.deployedDB.Store(nil)
 		o.mu.Lock()
 		o.checkpoint = nil
 		o.mu.Unlock()
@@ -280,11 +285,19 @@ func (o *Operator) endDeployment(ctx context.Context) error {
 }
 
 func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.UpdateRetainedCheckpointsRequest) error {
-	return o.db.UpdateRetainedCheckpoints(req.CheckpointIds)
+	db := o.deployedDB.Load()
+	if db == nil {
+		return errors.New("operator is not deployed")
+	}
+	return db.UpdateRetainedCheckpoints(req.CheckpointIds)
 }
 
 func (o *Operator) HandleNeedsTable(fileURI string) bool {
-	return o.db.NeedsTable(fileURI)
+	db := o.deployedDB.Load()
+	if db == nil {
+		return true // It may be part of the checkpoint that is being restored
+	}
+	return db.NeedsTable(fileURI)
 }
 
 func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *workerpb.Event) error {
-- 
2.43.0


From ce3ae3bf75d6b111256b910ea464a2de20b3c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 53/68] fix: a node replaces the one registered at its address
 before

---
 jobs/registry.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jobs/registry.go b/jobs/registry.go
index 1021e73..877f1f4 100644
--- a/jobs/registry.go
+++ b/jobs/registry.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"slices"
 
 	"reduction.dev/reduction/proto"
 	"reduction.dev/reduction/proto/jobpb"
@@ -32,6 +33,7 @@ func NewRegistry(taskCount int, liveness *LivenessTracker) *Registry {
 func (r *Registry) RegisterSourceRunner(runner proto.SourceRunner) {
 	r.liveness.Heartbeat(runner.ID())
 	if isNew := r.runners.Set(runner.ID(), runner); isNew {
+		removeReplaced(r.runners, runner)
 		r.didChange = true
 	}
 }
@@ -45,6 +47,7 @@ func (r *Registry) DeregisterSourceRunner(sr *jobpb.NodeIdentity) {
 func (r *Registry) RegisterOperator(op proto.Operator) {
 	r.liveness.Heartbeat(op.ID())
 	if isNew := r.operators.Set(op.ID(), op); isNew {
+		removeReplaced(r.operators, op)
 		r.didChange = true
 	}
 }
@@ -55,6 +58,19 @@ func (r *Registry) DeregisterOperator(op *jobpb.NodeIdentity) {
 	}
 }
 
+// removeReplaced removes the nodes at the address of a node that just started
+// there. Requests for them would reach the new node.
+func removeReplaced[N interface {
+	ID() string
+	Host() string
+}](nodes *ds.SortedMap[string, N], started N) {
+	for _, n := range slices.Clone(nodes.Values()) {
+		if n.ID() != started.ID() && n.Host() != "" && n.Host() == started.Host() {
+			nodes.Delete(n.ID())
+		}
+	}
+}
+
 // NewAssembly attempts to get the required operators and source runners
 // for an assembly. Returns nil, ErrNotEnoughResources if insufficient resources.
 func (r *Registry) NewAssembly() (*Assembly, error) {
-- 
2.43.0


From a8a6a75097c2a3ecf14a22a5d8f9b8042b133990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 54/68] fix: an operator that replaced another doesn't panic
 when deployed in its place

---
 workers/operator/operator.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index bcdd8ea..9804226 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -179,6 +179,15 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.deployMu.Lock()
 	defer o.deployMu.Unlock()
 
+	// Locate own index by in the list of provided operator IDs. The request may
+	// be for an operator that ran at this address before.
+	ownIndex := slices.IndexFunc(req.Operators, func(op *jobpb.NodeIdentity) bool {
+		return op.Id == o.id
+	})
+	if ownIndex == -1 {
+		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("operator id %s was not included in assembly ids provided by job, %v", o.id, req.Operators))
+	}
+
 	if err := o.endDeployment(ctx); err != nil {
 		return err
 	}
@@ -191,14 +200,6 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		"keyGroupCount", req.KeyGroupCount,
 		"checkpoints", req.Checkpoints)
 
-	// Locate own index by in the list of provided operator IDs
-	ownIndex := slices.IndexFunc(req.Operators, func(op *jobpb.NodeIdentity) bool {
-		return op.Id == o.id
-	})
-	if ownIndex == -1 {
-		panic(fmt.Sprintf("operator id %s was not included in assembly ids provided by job, %v", o.id, req.Operators))
-	}
-
 	// Instantiate key space members
 	o.keySpace = partitioning.NewKeySpace(int(req.KeyGroupCount), len(req.Operators))
 	keyGroupRanges := o.keySpace.KeyGroupRanges()
-- 
2.43.0


From a573b15900ae5742e7767b3c9b1036685eb9bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 55/68] fix: a failed deployment is retried with the next
 heartbeat instead of at once

---
 jobs/job.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jobs/job.go b/jobs/job.go
index 13b32e4..7c20dad 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -378,7 +378,7 @@ func (j *Job) stopDeployment() {
 }
 
 // failDeployment drops the assembly of a deployment, unless that happened
-// already, and tries again.
+// already. The next heartbeat of a node makes the job try again.
 func (j *Job) failDeployment(d *deployment, err error) {
 	if d.ctx.Err() != nil {
 		return
@@ -390,7 +390,6 @@ func (j *Job) failDeployment(d *deployment, err error) {
 			}
 			j.log.Error("deployment failed", "err", err)
 			j.stopDeployment()
-			j.evaluateClusterStatus()
 			return nil
 		}
 	}()
-- 
2.43.0


From c5e3fef9e6d9910922f806ca05dbad177db5671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 56/68] fix: a deployment request that was given up doesn't
 replace a later one

---
 workers/operator/operator.go          | 5 +++++
 workers/sourcerunner/source_runner.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 9804226..a86a819 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -179,6 +179,11 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.deployMu.Lock()
 	defer o.deployMu.Unlock()
 
+	// Another deployment may have come first and replaced this one.
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	// Locate own index by in the list of provided operator IDs. The request may
 	// be for an operator that ran at this address before.
 	ownIndex := slices.IndexFunc(req.Operators, func(op *jobpb.NodeIdentity) bool {
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 2db373f..24d3820 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -194,6 +194,11 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	r.deployMu.Lock()
 	defer r.deployMu.Unlock()
 
+	// Another deployment may have come first and replaced this one.
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	// Stop the previous deployment before starting this one so that none of its
 	// events are sent after the operators are deployed again.
 	r.mu.Lock()
-- 
2.43.0


From 0cc7a5c79df7e4100f62e335469195120e756d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 57/68] fix: an operator whose event loop failed ends with the
 error

---
 workers/operator/operator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index a86a819..fbcd472 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -138,9 +138,13 @@ func (o *Operator) Start(ctx context.Context) error {
 
 	o.eventBatcher = batching.NewEventBatcher[RxnHandlerEvent](ctx, o.eventBatchingParams)
 
+	failed := make(chan error, 1)
 	go func() {
 		if err := o.processEvents(ctx); err != nil {
 			o.Logger.Error("processEvents failed", "err", err)
+			if ctx.Err() == nil {
+				failed <- fmt.Errorf("processing events: %w", err)
+			}
 		}
 		close(o.stopped)
 		cancel()
@@ -161,7 +165,13 @@ func (o *Operator) Start(ctx context.Context) error {
 		o.job.DeregisterOperator(context.Background(), &jobpb.NodeIdentity{Id: o.id, Host: o.host})
 	}
 	o.Logger.Info("stopped")
-	return nil
+
+	select {
+	case err := <-failed:
+		return err // Ends the worker: a source runner without an operator is of no use
+	default:
+		return nil
+	}
 }
 
 // Only called externally
-- 
2.43.0


From 6feb5713ab8315cda14d4044edf01b279ccf0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 58/68] fix: an operator doesn't go on after a batch failed,
 and a sender's connection doesn't end a batch

---
 workers/operator/operator.go | 117 +++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 40 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index fbcd472..272fdbd 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -38,7 +38,7 @@ type Operator struct {
 	mu                      *sync.RWMutex
 	deployMu                sync.Mutex // Serializes deployments
 	clock                   clocks.Clock
-	events                  chan func()
+	events                  chan func(ctx context.Context)
 	stopped                 chan struct{} // Closed when the event loop ended
 	stop                    context.CancelFunc
 	isHalting               atomic.Bool
@@ -60,12 +60,22 @@ type Operator struct {
 	deployedDB     atomic.Pointer[dkv.DB] // Unset while deploying
 
 	checkpoint *checkpoint
+	batchErr   error // Only used by the event loop
 }
 
 // A deployment identifies which events belong together.
 type deployment struct {
 	sourceRunnerIDs []string
-	ended           chan struct{} // Closed when another deployment begins
+	ctx             context.Context // Ends when another deployment begins or the operator stops
+	cancel          context.CancelCauseFunc
+}
+
+// err is the error for events that come too late.
+func (d *deployment) err() error {
+	if context.Cause(d.ctx) == errEnded {
+		return errEnded
+	}
+	return errStopped
 }
 
 var (
@@ -111,7 +121,7 @@ func NewOperator(params NewOperatorParams) *Operator {
 		Logger:                  log,
 		mu:                      &sync.RWMutex{},
 		clock:                   params.Clock,
-		events:                  make(chan func()),
+		events:                  make(chan func(ctx context.Context)),
 		stopped:                 make(chan struct{}),
 		stop:                    func() {}, // initialize with noop
 		eventBatchingParams:     params.EventBatching,
@@ -203,7 +213,8 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("operator id %s was not included in assembly ids provided by job, %v", o.id, req.Operators))
 	}
 
-	if err := o.endDeployment(ctx); err != nil {
+	loopCtx, err := o.endDeployment(ctx)
+	if err != nil {
 		return err
 	}
 
@@ -262,7 +273,8 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
 	o.deployedDB.Store(o.db)
-	o.deployment.Store(&deployment{sourceRunnerIDs: slices.Clone(req.SourceRunnerIds), ended: make(chan struct{})})
+	deploymentCtx, cancel := context.WithCancelCause(loopCtx)
+	o.deployment.Store(&deployment{sourceRunnerIDs: slices.Clone(req.SourceRunnerIds), ctx: deploymentCtx, cancel: cancel})
 
 	if err := o.status.DidLoad(); err != nil {
 		return fmt.Errorf("invalid status transition: %w", err)
@@ -272,31 +284,32 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	return nil
 }
 
-// endDeployment ends the current deployment between two events. It releases
-// waiting senders and forgets pending events and unaligned checkpoints because
-// nothing sent to one deployment may change the state of the next.
-func (o *Operator) endDeployment(ctx context.Context) error {
-	done := make(chan struct{})
-	end := func() {
-		defer close(done)
+// endDeployment ends the current deployment between two events and returns the
+// context of the event loop. It releases waiting senders and forgets pending
+// events and unaligned checkpoints because nothing sent to one deployment may
+// change the state of the next.
+func (o *Operator) endDeployment(ctx context.Context) (context.Context, error) {
+	if d := o.deployment.Load(); d != nil {
+		d.cancel(errEnded)
+	}
+	done := make(chan context.Context, 1)
+	end := func(loopCtx context.Context) {
 		o.status.LoadingStarted()
-		if d := o.deployment.Swap(nil); d != nil {
-			close(d.ended)
-		}
+		o.deployment.Store(nil)
 		o.deployedDB.Store(nil)
 		o.mu.Lock()
 		o.checkpoint = nil
 		o.mu.Unlock()
 		o.eventBatcher.Flush(batching.CurrentBatch)
+		done <- loopCtx
 	}
 	select {
 	case o.events <- end:
-		<-done
-		return nil
+		return <-done, nil
 	case <-o.stopped:
-		return errStopped
+		return nil, errStopped
 	case <-ctx.Done():
-		return ctx.Err()
+		return nil, ctx.Err()
 	}
 }
 
@@ -337,45 +350,54 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 	o.mu.RUnlock()
 	select {
 	case <-aligned:
-	case <-deployment.ended:
-		return errEnded
+	case <-deployment.ctx.Done():
+		return deployment.err()
 	case <-o.stopped:
 		return errStopped
 	case <-ctx.Done():
 		return ctx.Err()
 	}
 
-	var handle func() error
+	// Handling doesn't depend on the sender's connection. Other senders' events
+	// may be part of the same batch.
+	var handle func(ctx context.Context) error
 	switch typedEvent := req.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
-		handle = func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) }
+		handle = func(ctx context.Context) error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) }
 	case *workerpb.Event_Watermark:
-		handle = func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) }
+		handle = func(ctx context.Context) error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) }
 	case *workerpb.Event_CheckpointBarrier:
-		handle = func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) }
+		handle = func(ctx context.Context) error {
+			return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier)
+		}
 	case *workerpb.Event_SourceComplete:
-		handle = func() error { return o.handleSourceComplete(senderID) }
+		handle = func(ctx context.Context) error { return o.handleSourceComplete(ctx, senderID) }
 	default:
 		return fmt.Errorf("unknown event to handle %v", typedEvent)
 	}
 
 	// Collect the err response from the queued event.
 	respErr := make(chan error, 1)
-	event := func() {
-		switch {
-		case deployment != o.deployment.Load():
-			respErr <- errEnded
-		case ctx.Err() != nil:
+	event := func(context.Context) {
+		if deployment.ctx.Err() != nil {
+			respErr <- deployment.err()
+			return
+		}
+		if ctx.Err() != nil {
 			respErr <- ctx.Err()
-		default:
-			respErr <- handle()
+			return
 		}
+		err := handle(deployment.ctx)
+		if err != nil && deployment.ctx.Err() != nil {
+			err = deployment.err()
+		}
+		respErr <- err
 	}
 	select {
 	case o.events <- event:
 		return <-respErr
-	case <-deployment.ended:
-		return errEnded
+	case <-deployment.ctx.Done():
+		return deployment.err()
 	case <-o.stopped:
 		return errStopped
 	case <-ctx.Done():
@@ -391,12 +413,19 @@ func (o *Operator) processEvents(ctx context.Context) error {
 			if !ok {
 				return nil
 			}
-			event()
+			event(ctx)
+			if o.batchErr != nil {
+				return o.batchErr
+			}
 		case batchToken, ok := <-o.eventBatcher.BatchTimedOut:
 			if !ok {
 				return nil
 			}
-			if err := o.processEventBatch(ctx, batchToken); err != nil {
+			d := o.deployment.Load()
+			if d == nil || d.ctx.Err() != nil {
+				continue
+			}
+			if err := o.processEventBatch(d.ctx, batchToken); err != nil && d.ctx.Err() == nil {
 				return err
 			}
 		case <-ctx.Done():
@@ -480,9 +509,9 @@ func (o *Operator) handleCheckpointBarrier(ctx context.Context, senderID string,
 	return nil
 }
 
-func (o *Operator) handleSourceComplete(sourceRunnerID string) error {
+func (o *Operator) handleSourceComplete(ctx context.Context, sourceRunnerID string) error {
 	o.Logger.Info("got source complete event", "sourceRunnerID", sourceRunnerID)
-	if err := o.processEventBatch(context.Background(), batching.CurrentBatch); err != nil {
+	if err := o.processEventBatch(ctx, batching.CurrentBatch); err != nil {
 		return err
 	}
 	o.sourceRunners.deactivate(sourceRunnerID)
@@ -492,7 +521,15 @@ func (o *Operator) handleSourceComplete(sourceRunnerID string) error {
 	return nil
 }
 
-func (o *Operator) processEventBatch(ctx context.Context, batchToken batching.BatchToken) error {
+// processEventBatch applies the pending events. If that fails, the events are
+// lost and following ones can't be processed, unless the deployment ended.
+func (o *Operator) processEventBatch(ctx context.Context, batchToken batching.BatchToken) (err error) {
+	defer func() {
+		if err != nil && ctx.Err() == nil {
+			o.batchErr = err
+		}
+	}()
+
 	batchEvents := o.eventBatcher.Flush(batchToken)
 	if len(batchEvents) == 0 {
 		return nil
-- 
2.43.0


From 911962ecbac370f092585bed424fa5b187010dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 59/68] fix: kinesis shards are resumed as the checkpoint left
 them, each once and after their parents

Restoring assigned shards panicked, handed them out twice, skipped children with
IDs below the last assigned one and forgot shards which were finished between a
source runner's checkpoint and the splitter's. Source runners report the splits
they finished with their checkpoint and tell the job until it knows.
---
 connectors/kinesis/kinesispb/kinesis.proto  |   8 +-
 connectors/kinesis/source_splitter.go       | 125 ++++++++++++--------
 connectors/kinesis/source_splitter_shard.go |   5 +-
 connectors/kinesis/split_tracker.go         |  11 +-
 proto/jobpb/job.proto                       |   3 +
 proto/snapshotpb/snapshot.proto             |   3 +
 storage/snapshots/snapshot.go               |  13 +-
 storage/snapshots/store.go                  |   1 +
 workers/sourcerunner/source_runner.go       |  32 ++++-
 9 files changed, 135 insertions(+), 66 deletions(-)

diff --git a/connectors/kinesis/kinesispb/kinesis.proto b/connectors/kinesis/kinesispb/kinesis.proto
index 925031a..60282de 100644
--- a/connectors/kinesis/kinesispb/kinesis.proto
+++ b/connectors/kinesis/kinesispb/kinesis.proto
@@ -4,8 +4,14 @@ package connectors.kinesis.proto.v1;
 option go_package = "connectors/kinesispb";
 
 message SplitterState {
-  string last_assigned_shard_id = 1;
+  reserved 1;
   repeated SourceSplitterShard assigned_shards = 2;
+
+  // Shards that were finished when the splitter started
+  repeated string finished_shard_ids = 3;
+
+  // Shards to resume as of when the splitter started
+  repeated Shard shards = 4;
 }
 
 message SourceSplitterShard {
diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 24d63f5..b20d163 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -3,7 +3,9 @@ package kinesis
 import (
 	"context"
 	"fmt"
+	"maps"
 	"math/big"
+	"slices"
 	"time"
 
 	awskinesis "github.com/aws/aws-sdk-go-v2/service/kinesis"
@@ -22,13 +24,13 @@ var (
 type SourceSplitter struct {
 	client                 *awskinesis.Client
 	streamARN              string
-	cursors                map[string]string
+	cursors                map[string]string   // Positions of shards when the splitter started
+	finished               map[string]struct{} // Shards finished when the splitter started
 	sourceRunnerIDs        []string
 	errChan                chan<- error
 	hooks                  connectors.SourceSplitterHooks
 	splitTracker           *SplitTracker
 	shardDiscoveryInterval time.Duration
-	shardDiscoveryTicker   *time.Ticker
 
 	// splitsDidFinish signals that some splits were removed and new splits may
 	// be available for assignment.
@@ -48,42 +50,37 @@ func NewSourceSplitter(config SourceConfig, sourceRunnerIDs []string, hooks conn
 		shardDiscoveryInterval = config.ShardDiscoveryInterval
 	}
 
+	ctx, cancel := context.WithCancel(context.Background())
 	return &SourceSplitter{
 		client:                 config.NewKinesisClient(),
 		streamARN:              config.StreamARN,
 		cursors:                make(map[string]string),
+		finished:               make(map[string]struct{}),
 		errChan:                errChan,
 		hooks:                  hooks,
 		sourceRunnerIDs:        sourceRunnerIDs,
 		splitTracker:           NewSplitTracker(),
 		shardDiscoveryInterval: shardDiscoveryInterval,
 		splitsDidFinish:        make(chan struct{}, 1),
-		ctx:                    context.Background(),
+		ctx:                    ctx,
+		cancel:                 cancel,
 	}
 }
 
 // Start initializes the SourceSplitter, optionally loading a checkpoint.
 func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
-	ctx, cancel := context.WithCancel(context.Background())
-	s.ctx = ctx
-	s.cancel = cancel
-
-	var pendingShards []SourceSplitterShard
-
 	// Load the splitter state
 	var splitterState kinesispb.SplitterState
 	if err := proto.Unmarshal(ckpt.GetSplitterState(), &splitterState); err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to unmarshal splitter state: %w", err)
 	}
 
-	// Build a list of shards that need to be assigned
-	pendingShards = make([]SourceSplitterShard, len(splitterState.AssignedShards))
-	for i, shard := range splitterState.GetAssignedShards() {
-		pendingShards[i] = newSourceSplitterShardFromProto(shard)
+	// The splitter state has the cursors and the finished shards from before the
+	// deployment that made the checkpoint, the rest of the checkpoint has what
+	// its source readers reached.
+	for _, shard := range splitterState.Shards {
+		s.cursors[shard.ShardId] = shard.Cursor
 	}
-	s.splitTracker.LoadSplits(pendingShards, splitterState.LastAssignedShardId)
-
-	// Load the split states to get the cursors
 	for _, splitState := range ckpt.GetSplitStates() {
 		var split kinesispb.Shard
 		if err := proto.Unmarshal(splitState, &split); err != nil {
@@ -91,42 +88,63 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 		}
 		s.cursors[split.ShardId] = split.Cursor
 	}
+	finishedIDs := append(splitterState.FinishedShardIds, ckpt.GetFinishedSplitIds()...)
+	for _, shardID := range finishedIDs {
+		s.finished[shardID] = struct{}{}
+		delete(s.cursors, shardID)
+	}
+
+	// Load the shards that need to be assigned again
+	assignedShards := make([]SourceSplitterShard, len(splitterState.AssignedShards))
+	for i, shard := range splitterState.GetAssignedShards() {
+		assignedShards[i] = newSourceSplitterShardFromProto(shard)
+	}
+	s.splitTracker.LoadSplits(assignedShards, "")
+	s.splitTracker.RemoveSplits(finishedIDs)
 
-	// Include newly discovered shards for assignment
-	err := s.discoverShards(ctx, s.splitTracker.LastAssignedSplitID)
+	// Include all other shards for assignment
+	shards, err := s.discoverShards(s.ctx)
 	if err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 	}
-	pendingShards = append(pendingShards, s.splitTracker.AvailableSplits()...)
+
+	// Forget finished shards once the stream doesn't have them anymore
+	maps.DeleteFunc(s.finished, func(shardID string, _ struct{}) bool {
+		return !slices.ContainsFunc(shards, func(shard SourceSplitterShard) bool {
+			return shard.ShardID == shardID
+		})
+	})
 
 	// Do the initial split assignment
-	s.assignShards(ctx, pendingShards)
+	s.assignShards(s.splitTracker.AvailableSplits())
 
 	// Setup background shard assignment
-	s.shardDiscoveryTicker = time.NewTicker(s.shardDiscoveryInterval)
-	go s.processShardAssignment(ctx)
+	go s.processShardAssignment(s.ctx)
 
 	return nil
 }
 
 func (s *SourceSplitter) processShardAssignment(ctx context.Context) {
+	shardDiscoveryTicker := time.NewTicker(s.shardDiscoveryInterval)
+	defer shardDiscoveryTicker.Stop()
+
 	for {
 		select {
 		case <-ctx.Done():
 			return
-		case <-s.shardDiscoveryTicker.C:
+		case <-shardDiscoveryTicker.C:
 			// periodically discover shards and assign them to source runners
-			err := s.discoverShards(s.ctx, s.splitTracker.LastAssignedSplitID)
-			if err != nil {
-				s.errChan <- fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
+			if _, err := s.discoverShards(ctx); err != nil {
+				select {
+				case s.errChan <- fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err):
+				case <-ctx.Done():
+				}
 				return
 			}
-			pending := s.splitTracker.AvailableSplits()
-			s.assignShards(s.ctx, pending)
+			s.assignShards(s.splitTracker.AvailableSplits())
 		case <-s.splitsDidFinish:
 			// When splits finish, their child splits may become available
-			pending := s.splitTracker.AvailableSplits()
-			s.assignShards(s.ctx, pending)
+			s.assignShards(s.splitTracker.AvailableSplits())
 		}
 	}
 }
@@ -135,16 +153,14 @@ func (s *SourceSplitter) IsSourceSplitter() {}
 
 func (s *SourceSplitter) NotifySplitsFinished(sourceRunnerID string, splitIDs []string) {
 	s.splitTracker.RemoveSplits(splitIDs)
-	s.splitsDidFinish <- struct{}{}
+	select {
+	case s.splitsDidFinish <- struct{}{}:
+	default: // Already signaled
+	}
 }
 
 func (s *SourceSplitter) Close() error {
-	if s.shardDiscoveryTicker != nil {
-		s.shardDiscoveryTicker.Stop()
-	}
-	if s.cancel != nil {
-		s.cancel()
-	}
+	s.cancel()
 	return nil
 }
 
@@ -156,9 +172,18 @@ func (s *SourceSplitter) Checkpoint() []byte {
 		pbShards[i] = shard.toProto()
 	}
 
+	// What became of the shards since the splitter started is up to the source
+	// readers' part of the checkpoint. Shards they weren't reading then still
+	// have their cursor of the start.
+	cursors := make([]*kinesispb.Shard, 0, len(s.cursors))
+	for _, shardID := range slices.Sorted(maps.Keys(s.cursors)) {
+		cursors = append(cursors, &kinesispb.Shard{ShardId: shardID, Cursor: s.cursors[shardID]})
+	}
+
 	bs, err := proto.Marshal(&kinesispb.SplitterState{
-		AssignedShards:      pbShards,
-		LastAssignedShardId: s.splitTracker.LastAssignedSplitID,
+		AssignedShards:   pbShards,
+		FinishedShardIds: slices.Sorted(maps.Keys(s.finished)),
+		Shards:           cursors,
 	})
 	if err != nil {
 		panic(err)
@@ -166,16 +191,14 @@ func (s *SourceSplitter) Checkpoint() []byte {
 	return bs
 }
 
-// listAllShards paginates through all shards for a given streamARN, starting after exclusiveStartShardID.
-func (s *SourceSplitter) listAllShards(ctx context.Context, exclusiveStartShardID string) ([]SourceSplitterShard, error) {
+// listAllShards paginates through all shards for a given streamARN.
+func (s *SourceSplitter) listAllShards(ctx context.Context) ([]SourceSplitterShard, error) {
 	var shards []SourceSplitterShard
 	var nextToken *string
 	for {
 		input := &awskinesis.ListShardsInput{StreamARN: &s.streamARN}
 		if nextToken != nil {
 			input.NextToken = nextToken
-		} else if exclusiveStartShardID != "" {
-			input.ExclusiveStartShardId = &exclusiveStartShardID
 		}
 		out, err := s.client.ListShards(ctx, input)
 		if err != nil {
@@ -192,19 +215,20 @@ func (s *SourceSplitter) listAllShards(ctx context.Context, exclusiveStartShardI
 	return shards, nil
 }
 
-// discoverShards fetches new shards and returns any shards ready for assignment.
-func (s *SourceSplitter) discoverShards(ctx context.Context, lastAssignedShardID string) error {
-	shards, err := s.listAllShards(ctx, lastAssignedShardID)
+// discoverShards tracks all shards of the stream and returns them. Shards may
+// become available for assignment in another order than that of their IDs.
+func (s *SourceSplitter) discoverShards(ctx context.Context) ([]SourceSplitterShard, error) {
+	shards, err := s.listAllShards(ctx)
 	if err != nil {
-		return fmt.Errorf("kinesis.SourceSplitter failed to list shards: %w", err)
+		return nil, fmt.Errorf("kinesis.SourceSplitter failed to list shards: %w", err)
 	}
 	s.splitTracker.AddSplits(shards)
-	return nil
+	return shards, nil
 }
 
 // assignShards assings the list of shards to the source runners. It tracks the
 // assignmets in internal state.
-func (s *SourceSplitter) assignShards(ctx context.Context, shards []SourceSplitterShard) {
+func (s *SourceSplitter) assignShards(shards []SourceSplitterShard) {
 	if len(shards) == 0 {
 		return
 	}
@@ -221,8 +245,9 @@ func (s *SourceSplitter) assignShards(ctx context.Context, shards []SourceSplitt
 		})
 	}
 
-	s.hooks.AssignSplits(assignments)
+	// Shards may already be finished when AssignSplits returns
 	s.splitTracker.TrackAssigned(shards)
+	s.hooks.AssignSplits(assignments)
 }
 
 var _ connectors.SourceSplitter = (*SourceSplitter)(nil)
diff --git a/connectors/kinesis/source_splitter_shard.go b/connectors/kinesis/source_splitter_shard.go
index f4e5d67..46a391c 100644
--- a/connectors/kinesis/source_splitter_shard.go
+++ b/connectors/kinesis/source_splitter_shard.go
@@ -41,9 +41,8 @@ func newSourceSplitterShardFromKinesis(shard kinesistypes.Shard) SourceSplitterS
 }
 
 func newSourceSplitterShardFromProto(shard *kinesispb.SourceSplitterShard) SourceSplitterShard {
-	var start, end *big.Int
-	start.SetBytes(shard.HashKeyRange.Start)
-	end.SetBytes(shard.HashKeyRange.End)
+	start := new(big.Int).SetBytes(shard.HashKeyRange.GetStart())
+	end := new(big.Int).SetBytes(shard.HashKeyRange.GetEnd())
 
 	return SourceSplitterShard{
 		ShardID:      shard.ShardId,
diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index 1d4a460..25d453d 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -11,7 +11,8 @@ import (
 type SplitTracker struct {
 	knownSplits         *ds.SortedMap[string, SourceSplitterShard]
 	assignedSplits      map[string]struct{}
-	LastAssignedSplitID string // The last split ID that was marked assigned.
+	finishedSplits      map[string]struct{} // Splits which must not be tracked again
+	LastAssignedSplitID string              // The last split ID that was marked assigned.
 	mu                  sync.Mutex
 }
 
@@ -19,6 +20,7 @@ func NewSplitTracker() *SplitTracker {
 	return &SplitTracker{
 		knownSplits:    ds.NewSortedMap[string, SourceSplitterShard](),
 		assignedSplits: make(map[string]struct{}),
+		finishedSplits: make(map[string]struct{}),
 	}
 }
 
@@ -41,7 +43,9 @@ func (st *SplitTracker) AddSplits(shards []SourceSplitterShard) {
 	defer st.mu.Unlock()
 
 	for _, shard := range shards {
-		st.knownSplits.Set(shard.ShardID, shard)
+		if _, finished := st.finishedSplits[shard.ShardID]; !finished {
+			st.knownSplits.Set(shard.ShardID, shard)
+		}
 	}
 }
 
@@ -59,7 +63,7 @@ func (st *SplitTracker) TrackAssigned(shards []SourceSplitterShard) {
 	}
 }
 
-// RemoveSplits removes the given splits from tracking.
+// RemoveSplits removes the given finished splits from tracking.
 func (st *SplitTracker) RemoveSplits(splitIDs []string) {
 	st.mu.Lock()
 	defer st.mu.Unlock()
@@ -67,6 +71,7 @@ func (st *SplitTracker) RemoveSplits(splitIDs []string) {
 	for _, splitID := range splitIDs {
 		st.knownSplits.Delete(splitID)
 		delete(st.assignedSplits, splitID)
+		st.finishedSplits[splitID] = struct{}{}
 	}
 }
 
diff --git a/proto/jobpb/job.proto b/proto/jobpb/job.proto
index cc5d8fb..2371b0e 100644
--- a/proto/jobpb/job.proto
+++ b/proto/jobpb/job.proto
@@ -50,4 +50,7 @@ message SourceRunnerCheckpointCompleteRequest {
   string source_runner_id = 1;
   uint64 checkpoint_id = 2;
   repeated bytes split_states = 3;
+
+  // Splits the source runner finished since it was deployed
+  repeated string finished_split_ids = 4;
 }
diff --git a/proto/snapshotpb/snapshot.proto b/proto/snapshotpb/snapshot.proto
index 633c8ca..4e45dda 100644
--- a/proto/snapshotpb/snapshot.proto
+++ b/proto/snapshotpb/snapshot.proto
@@ -33,4 +33,7 @@ message SourceCheckpoint {
   // State specific to each splitter source type that will likely contain a
   // cursor for the discovered splits.
   bytes splitterState = 4;
+
+  // Splits that were finished by their source runners since they were deployed
+  repeated string finished_split_ids = 5;
 }
diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index b1a4c0f..0574931 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -32,6 +32,9 @@ type jobSnapshot struct {
 	// The sourceSplitter checkpoint data
 	splitterState []byte
 
+	// The splits source runners finished ahead of their checkpoints
+	finishedSplitIDs []string
+
 	// A flag to indicate the checkpoint should be converted to a savepoint
 	isSavepoint bool
 }
@@ -83,6 +86,7 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 
 	s.sourceRunnerIDsComplete[ckpt.SourceRunnerId] = true
 	s.splitStates = append(s.splitStates, ckpt.SplitStates...)
+	s.finishedSplitIDs = append(s.finishedSplitIDs, ckpt.FinishedSplitIds...)
 
 	return nil
 }
@@ -97,10 +101,11 @@ func (s *jobSnapshot) toProto() *snapshotpb.JobCheckpoint {
 		Id: s.id,
 		// We only add once source checkpoint for now since jobs only support one source
 		SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{
-			CheckpointId:  s.id,
-			SplitStates:   s.splitStates,
-			SourceId:      "tbd",
-			SplitterState: s.splitterState,
+			CheckpointId:     s.id,
+			SplitStates:      s.splitStates,
+			SourceId:         "tbd",
+			SplitterState:    s.splitterState,
+			FinishedSplitIds: s.finishedSplitIDs,
 		}},
 		OperatorCheckpoints: s.operatorCheckpoints,
 	}
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index c2cbbd6..d0b9900 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -385,6 +385,7 @@ func (s *Store) LoadCheckpoint() error {
 		operatorCheckpoints: loadedCheckpoint.OperatorCheckpoints,
 		splitStates:         loadedCheckpoint.SourceCheckpoints[0].SplitStates,
 		splitterState:       loadedCheckpoint.SourceCheckpoints[0].SplitterState,
+		finishedSplitIDs:    loadedCheckpoint.SourceCheckpoints[0].FinishedSplitIds,
 	}
 	s.state.completedSnapshots = []*jobSnapshot{jSnapshot}
 
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 24d3820..f977297 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -33,7 +33,7 @@ type SourceRunner struct {
 	isHalting           atomic.Bool
 	stop                context.CancelCauseFunc // Signal to stop all source runner processes
 	operatorFactory     proto.OperatorFactory
-	sourceReaderFactory func(context.Context, *jobconfigpb.Source) connectors.SourceReader
+	sourceReaderFactory func(*deployment, *jobconfigpb.Source) connectors.SourceReader
 	errChan             chan error
 	batchingParams      batching.EventBatcherParams
 	initDone            chan struct{} // Used by HandleStart to wait until Start finishes initializing
@@ -68,6 +68,8 @@ type deployment struct {
 	checkpointBarrier chan *workerpb.CheckpointBarrier
 
 	splitsWereAssigned chan []*workerpb.SourceSplit // channel for split assignment requests
+
+	finishedSplitIDs []string // Splits the source reader has finished
 }
 
 type NewParams struct {
@@ -102,18 +104,19 @@ func New(params NewParams) *SourceRunner {
 		initDone:        make(chan struct{}),
 	}
 
-	sr.sourceReaderFactory = func(_ context.Context, source *jobconfigpb.Source) connectors.SourceReader {
+	sr.sourceReaderFactory = func(_ *deployment, source *jobconfigpb.Source) connectors.SourceReader {
 		return params.SourceReaderFactory(source)
 	}
 	if params.SourceReaderFactory == nil {
-		sr.sourceReaderFactory = func(ctx context.Context, source *jobconfigpb.Source) connectors.SourceReader {
+		sr.sourceReaderFactory = func(d *deployment, source *jobconfigpb.Source) connectors.SourceReader {
 			sourceConfig, err := config.SourceFromProto(source)
 			if err != nil {
 				panic(fmt.Sprintf("invalid source config: %v", err))
 			}
 			return sourceConfig.NewSourceReader(connectors.SourceReaderHooks{
 				NotifySplitsFinished: func(splitIDs []string) {
-					sr.job.NotifySplitsFinished(ctx, sr.ID, splitIDs)
+					d.finishedSplitIDs = append(d.finishedSplitIDs, splitIDs...)
+					go sr.notifySplitsFinished(d.ctx, splitIDs)
 				},
 			})
 		}
@@ -220,7 +223,7 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 		splitsWereAssigned: make(chan []*workerpb.SourceSplit, 1),
 	}
 
-	d.sourceReader = r.sourceReaderFactory(d.ctx, msg.Sources[0])
+	d.sourceReader = r.sourceReaderFactory(d, msg.Sources[0])
 	d.sourceChannel = connectors.NewReadSourceChannel(d.sourceReader)
 
 	// Errors of a deployment stop the source runner, unless the deployment ended.
@@ -439,9 +442,28 @@ func (r *SourceRunner) createCheckpoint(d *deployment, id uint64) error {
 		CheckpointId:   id,
 		SplitStates:    data,
 		SourceRunnerId: r.ID,
+
+		FinishedSplitIds: d.finishedSplitIDs,
 	})
 }
 
+// notifySplitsFinished tells the job about finished splits until it knows, since
+// other splits may have to wait for them.
+func (r *SourceRunner) notifySplitsFinished(ctx context.Context, splitIDs []string) {
+	for {
+		err := r.job.NotifySplitsFinished(ctx, r.ID, splitIDs)
+		if err == nil || ctx.Err() != nil {
+			return
+		}
+		r.Logger.Warn("failed to notify the job of finished splits, will retry", "err", err)
+		select {
+		case <-ctx.Done():
+			return
+		case <-time.After(time.Second):
+		}
+	}
+}
+
 // HandleAssignSplits is invoked to assign new splits and start reading from them.
 func (r *SourceRunner) HandleAssignSplits(ctx context.Context, splits []*workerpb.SourceSplit) error {
 	d := r.currentDeployment()
-- 
2.43.0


From 7f0f6bf047ece74c870ed3bce3fc27ec5e4f853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 60/68] fix: splits assigned ahead of a checkpoint are part of
 it

The barrier could be handled before the assignment that came first, so that the
checkpoint missed the positions of the splits.
---
 workers/sourcerunner/source_runner.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index f977297..9920017 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -314,15 +314,20 @@ func (r *SourceRunner) processEvents(d *deployment) error {
 			r.Logger.Info("stopping source runner loop", "cause", context.Cause(ctx))
 			return nil
 		case splits := <-d.splitsWereAssigned:
-			if err := d.sourceReader.AssignSplits(splits); err != nil {
+			if err := d.assignSplits(splits); err != nil {
 				return err
 			}
-			if len(splits) > 0 {
-				d.sourceChannel.Start(ctx)
-			}
 		case <-watermarkTicker.C:
 			d.output(&workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
 		case barrier := <-d.checkpointBarrier:
+			// Splits which were assigned ahead of the checkpoint must be part of it.
+			select {
+			case splits := <-d.splitsWereAssigned:
+				if err := d.assignSplits(splits); err != nil {
+					return err
+				}
+			default:
+			}
 			if err := r.createCheckpoint(d, barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
@@ -360,6 +365,16 @@ func (r *SourceRunner) processEvents(d *deployment) error {
 	}
 }
 
+func (d *deployment) assignSplits(splits []*workerpb.SourceSplit) error {
+	if err := d.sourceReader.AssignSplits(splits); err != nil {
+		return err
+	}
+	if len(splits) > 0 {
+		d.sourceChannel.Start(d.ctx)
+	}
+	return nil
+}
+
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
 	d := r.currentDeployment()
 	if d == nil {
-- 
2.43.0


From 9033c8c128207a3f379d6494c50e11bcbf42df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 61/68] fix: a kinesis source reader without shards doesn't
 spin

---
 connectors/kinesis/source_reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/connectors/kinesis/source_reader.go b/connectors/kinesis/source_reader.go
index 8911e71..ee26bcd 100644
--- a/connectors/kinesis/source_reader.go
+++ b/connectors/kinesis/source_reader.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"time"
 
 	"github.com/aws/aws-sdk-go-v2/service/kinesis"
 	kinesistypes "github.com/aws/aws-sdk-go-v2/service/kinesis/types"
@@ -17,6 +18,9 @@ import (
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
 
+// idleInterval is how long a read takes when the reader has no shards.
+const idleInterval = 10 * time.Millisecond
+
 type SourceReader struct {
 	client         *kinesis.Client
 	streamARN      string
@@ -44,8 +48,9 @@ func NewSourceReader(config SourceConfig, hooks connectors.SourceReaderHooks) *S
 
 // Poll the assigned Kinesis shards for records.
 func (s *SourceReader) ReadEvents() ([][]byte, error) {
-	// No-op if there are no shards to read
+	// There are no shards to read. This is called in a loop, don't make it a busy one.
 	if len(s.assignedShards) == 0 {
+		time.Sleep(idleInterval)
 		return [][]byte{}, nil
 	}
 
-- 
2.43.0


From d9fe1d755e3e7c8b8308aa57745339f2b1a2ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 62/68] fix: a kinesis shard is finished only if its assigned
 source runner says so

---
 connectors/kinesis/source_splitter.go | 14 ++++++++++++--
 connectors/kinesis/split_tracker.go   | 11 +++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index b20d163..84ec215 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -152,6 +152,12 @@ func (s *SourceSplitter) processShardAssignment(ctx context.Context) {
 func (s *SourceSplitter) IsSourceSplitter() {}
 
 func (s *SourceSplitter) NotifySplitsFinished(sourceRunnerID string, splitIDs []string) {
+	// A source runner may still tell what it finished for an earlier splitter,
+	// that isn't finished for this one.
+	splitIDs = slices.DeleteFunc(slices.Clone(splitIDs), func(splitID string) bool {
+		shard, assigned := s.splitTracker.AssignedSplit(splitID)
+		return !assigned || s.assignee(shard) != sourceRunnerID
+	})
 	s.splitTracker.RemoveSplits(splitIDs)
 	select {
 	case s.splitsDidFinish <- struct{}{}:
@@ -236,8 +242,7 @@ func (s *SourceSplitter) assignShards(shards []SourceSplitterShard) {
 	// Build a map from runner ID to assigned splits
 	assignments := make(map[string][]*workerpb.SourceSplit, len(s.sourceRunnerIDs))
 	for _, shard := range shards {
-		idx := uniformlyAssignShard(shard.HashKeyRange, len(s.sourceRunnerIDs))
-		runnerID := s.sourceRunnerIDs[idx]
+		runnerID := s.assignee(shard)
 		assignments[runnerID] = append(assignments[runnerID], &workerpb.SourceSplit{
 			SourceId: "tbd",
 			SplitId:  shard.ShardID,
@@ -250,6 +255,11 @@ func (s *SourceSplitter) assignShards(shards []SourceSplitterShard) {
 	s.hooks.AssignSplits(assignments)
 }
 
+// assignee returns the source runner which a shard is assigned to.
+func (s *SourceSplitter) assignee(shard SourceSplitterShard) string {
+	return s.sourceRunnerIDs[uniformlyAssignShard(shard.HashKeyRange, len(s.sourceRunnerIDs))]
+}
+
 var _ connectors.SourceSplitter = (*SourceSplitter)(nil)
 
 // uniformlyAssignShard returns the index of the sourceRunnerIDs to assign the
diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index 25d453d..3c15021 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -110,6 +110,17 @@ func (st *SplitTracker) AvailableSplits() []SourceSplitterShard {
 	return available
 }
 
+// AssignedSplit returns the split with the given ID if it's assigned.
+func (st *SplitTracker) AssignedSplit(splitID string) (SourceSplitterShard, bool) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	if _, assigned := st.assignedSplits[splitID]; !assigned {
+		return SourceSplitterShard{}, false
+	}
+	return st.knownSplits.Get(splitID)
+}
+
 func (st *SplitTracker) AssignedSplits() []SourceSplitterShard {
 	st.mu.Lock()
 	defer st.mu.Unlock()
-- 
2.43.0


From a21d187f7f59abb2f399f505e0c49fbaf9ee6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 63/68] fix: closing the kinesis splitter while it lists shards
 doesn't fail the job

---
 connectors/kinesis/source_splitter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 84ec215..7d5a973 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -135,6 +135,9 @@ func (s *SourceSplitter) processShardAssignment(ctx context.Context) {
 		case <-shardDiscoveryTicker.C:
 			// periodically discover shards and assign them to source runners
 			if _, err := s.discoverShards(ctx); err != nil {
+				if ctx.Err() != nil {
+					return // closed meanwhile, nothing failed
+				}
 				select {
 				case s.errChan <- fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err):
 				case <-ctx.Done():
-- 
2.43.0


From cdfa58918e7662c78696dd4a30579d409989b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 64/68] fix: the embedded source resumes its splits from a
 checkpoint

---
 connectors/embedded/source_splitter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/connectors/embedded/source_splitter.go b/connectors/embedded/source_splitter.go
index 67b7177..de8ff5e 100644
--- a/connectors/embedded/source_splitter.go
+++ b/connectors/embedded/source_splitter.go
@@ -1,6 +1,9 @@
 package embedded
 
 import (
+	"encoding/binary"
+	"encoding/json"
+	"fmt"
 	"strconv"
 
 	"reduction.dev/reduction/connectors"
@@ -25,19 +28,24 @@ type SourceSplitter struct {
 }
 
 func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
-	// Embedded SourceSplitter does not checkpoint
-	if ckpt != nil {
-		panic("embedded source splitter does not support checkpointing")
+	// Load the cursors which the source readers reached
+	cursors := make(map[string][]byte)
+	for _, splitState := range ckpt.GetSplitStates() {
+		var sp split
+		if err := json.Unmarshal(splitState, &sp); err != nil {
+			return fmt.Errorf("embedded.SourceSplitter failed to unmarshal split state: %w", err)
+		}
+		cursors[sp.SplitID] = binary.BigEndian.AppendUint64(nil, uint64(sp.Cursor))
 	}
 
-	// Create splits all with nil cursors
+	// Create splits with nil cursors unless they were read before
 	sourceSplits := make([]*workerpb.SourceSplit, s.splitCount)
 	for splitIndex := range iteru.Times(s.splitCount) {
 		splitID := strconv.Itoa(splitIndex)
 		sourceSplits[splitIndex] = &workerpb.SourceSplit{
 			SplitId:  splitID,
 			SourceId: "TBD",
-			Cursor:   nil,
+			Cursor:   cursors[splitID],
 		}
 	}
 
-- 
2.43.0


From 643b90fea2611974886ba9ca7961159dcc07da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 65/68] fix: namespaces longer than a byte's length don't run
 into the entry's key

---
 workers/operator/keyed_state_store.go | 37 ++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/workers/operator/keyed_state_store.go b/workers/operator/keyed_state_store.go
index b2c6c54..764108e 100644
--- a/workers/operator/keyed_state_store.go
+++ b/workers/operator/keyed_state_store.go
@@ -69,6 +69,18 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 	return nil
 }
 
+// longNamespace marks a namespace whose length doesn't fit into a single byte.
+const longNamespace = 0xff
+
+// namespaceLenSize is the number of bytes which encode the namespace's length:
+// one, or the longNamespace mark followed by four.
+func namespaceLenSize(namespace string) int {
+	if len(namespace) < longNamespace {
+		return 1
+	}
+	return 1 + 4
+}
+
 // Create a composite key for DKV storage like
 //
 //	<key-group><schema><subject-key><namespace><data>
@@ -76,8 +88,8 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 // Schema is 0x00, subject-key and namespace are length encoded and data is the
 // data bytes as-is.
 func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data []byte) []byte {
-	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + 1 namespace length byte + namespace + data
-	buf := make([]byte, 2+1+4+len(subjectKey)+1+len(namespace)+len(data))
+	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + namespace length bytes + namespace + data
+	buf := make([]byte, 2+1+4+len(subjectKey)+namespaceLenSize(namespace)+len(namespace)+len(data))
 	offset := 0
 
 	// Key group prefix
@@ -97,8 +109,13 @@ func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data
 	offset += copy(buf[offset:], subjectKey)
 
 	// Namespace length
-	buf[offset] = uint8(len(namespace))
-	offset += 1
+	if namespaceLenSize(namespace) == 1 {
+		buf[offset] = uint8(len(namespace))
+	} else {
+		buf[offset] = longNamespace
+		binary.BigEndian.PutUint32(buf[offset+1:], uint32(len(namespace)))
+	}
+	offset += namespaceLenSize(namespace)
 
 	// Namespace content
 	offset += copy(buf[offset:], namespace)
@@ -139,17 +156,23 @@ func (s *KeyedStateStore) decodeKey(compositeKey []byte) (namespace, data []byte
 	}
 
 	// Read the namespace value
-	var namespaceLen uint8
-	if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+	shortLen, err := r.ReadByte()
+	if err != nil {
 		panic(err)
 	}
+	namespaceLen := uint32(shortLen)
+	if shortLen == longNamespace {
+		if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+			panic(err)
+		}
+	}
 	namespace = make([]byte, namespaceLen)
 	if err := binary.Read(r, binary.BigEndian, &namespace); err != nil {
 		panic(err)
 	}
 
 	// Read remaining data
-	data, err := io.ReadAll(r)
+	data, err = io.ReadAll(r)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 83a56dfbd867c716f4db4e1843d4047a0d2a44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 66/68] fix: a redeploy waits for the compactions of the
 operator's last database

---
 workers/operator/operator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 272fdbd..b3a6ced 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -218,6 +218,14 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		return err
 	}
 
+	// The database of the last deployment may still compact tables, which its
+	// neighbors only keep until this operator's new database doesn't need them.
+	if o.db != nil {
+		if err := o.db.WaitOnTasks(); err != nil {
+			o.Logger.Warn("ending database of last deployment", "err", err)
+		}
+	}
+
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
-- 
2.43.0


From 6b83e428aac74645d22893e718835a82a5734dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 67/68] fix: timers after the year 2262 keep their time

---
 util/binu/binu.go               | 44 ++++++++++++++++++++++++++++++---
 workers/operator/timer_store.go | 17 +++++++------
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/util/binu/binu.go b/util/binu/binu.go
index 3e41efd..b43fe96 100644
--- a/util/binu/binu.go
+++ b/util/binu/binu.go
@@ -2,6 +2,7 @@ package binu
 
 import (
 	"encoding/binary"
+	"math"
 	"time"
 
 	"reduction.dev/reduction/util/sliceu"
@@ -21,14 +22,49 @@ func IntBytes(num uint64) []byte {
 	return buf
 }
 
-func PutTimeBytes(b []byte, t time.Time) int {
-	binary.BigEndian.PutUint64(b, uint64(t.UnixNano()))
+// Times which don't fit into nanoseconds since the epoch (after April 2262) are
+// encoded as the seconds since the epoch, with the first bit set to sort after
+// all of the others, followed by four bytes for the nanoseconds.
+const (
+	farTime     = uint64(1) << 63
+	farTimeMask = uint64(0xffffff << 40) // Seconds don't reach these bits
+)
+
+var maxNanoTime = time.Unix(0, math.MaxInt64)
+
+// TimeSize is the number of bytes that PutTimeBytes needs for t.
+func TimeSize(t time.Time) int {
+	if t.After(maxNanoTime) {
+		return 12
+	}
+	return 8
+}
+
+// EncodedTimeSize is the number of bytes of the encoded time b starts with.
+func EncodedTimeSize(b []byte) int {
+	if binary.BigEndian.Uint64(b)&farTimeMask == farTime {
+		return 12
+	}
 	return 8
 }
 
+func PutTimeBytes(b []byte, t time.Time) int {
+	if TimeSize(t) == 8 {
+		binary.BigEndian.PutUint64(b, uint64(t.UnixNano()))
+		return 8
+	}
+	binary.BigEndian.PutUint64(b, farTime|uint64(t.Unix()))
+	binary.BigEndian.PutUint32(b[8:], uint32(t.Nanosecond()))
+	return 12
+}
+
 func TimeFromBytes(b []byte) time.Time {
-	nanoSeconds := binary.BigEndian.Uint64(b)
-	return time.Unix(0, int64(nanoSeconds))
+	if EncodedTimeSize(b) == 8 {
+		nanoSeconds := binary.BigEndian.Uint64(b)
+		return time.Unix(0, int64(nanoSeconds))
+	}
+	seconds := binary.BigEndian.Uint64(b) &^ farTime
+	return time.Unix(int64(seconds), int64(binary.BigEndian.Uint32(b[8:])))
 }
 
 func MustAppend(buf []byte, order binary.ByteOrder, data any) []byte {
diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 5e48860..0bdef3e 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -37,7 +37,7 @@ func NewTimerStore(db *dkv.DB, keySpace *partitioning.KeySpace, keyGroupRange pa
 
 	compare := func(a, b []byte) int {
 		// Compare just the timestamps between partitions, not the key groups.
-		return bytes.Compare(a[3:11], b[3:11])
+		return bytes.Compare(a[3:3+binu.EncodedTimeSize(a[3:])], b[3:3+binu.EncodedTimeSize(b[3:])])
 	}
 
 	// The partition index adjusts the key group number to be within the list of partitions.
@@ -83,25 +83,26 @@ func (s *TimerStore) Delete(timer Timer) {
 // Create a key like <key-group><schema><timestamp><subject-key>
 // Uses schema byte 0x01 to avoid conflicts with KeyedStateStore (0x00)
 // encodeTimerKey creates a key with the following structure:
-// <2 bytes key-group><1 byte schema><8 bytes timestamp><subject-key>
+// <2 bytes key-group><1 byte schema><8 bytes timestamp (12 if it's far ahead)><subject-key>
 func (s *TimerStore) encodeTimerKey(subjectKey []byte, t time.Time) (kg partitioning.KeyGroup, key []byte) {
-	// 2 key group bytes + 1 schema byte + 8 timestamp bytes + subject key
-	encodedKey := make([]byte, 2+1+8+len(subjectKey))
+	// 2 key group bytes + 1 schema byte + timestamp bytes + subject key
+	timeSize := binu.TimeSize(t)
+	encodedKey := make([]byte, 2+1+timeSize+len(subjectKey))
 
 	kg = s.keySpace.KeyGroup(subjectKey)
 
 	kg.PutBytes(encodedKey[0:2])
 	encodedKey[2] = 0x01 // Write schema byte
-	binu.PutTimeBytes(encodedKey[3:11], t)
-	copy(encodedKey[11:], subjectKey)
+	binu.PutTimeBytes(encodedKey[3:], t)
+	copy(encodedKey[3+timeSize:], subjectKey)
 
 	return kg, encodedKey
 }
 
 func (s *TimerStore) timerFromBytes(b []byte) Timer {
 	kg := partitioning.KeyGroupFromBytes(b[0:2])
-	timestamp := binu.TimeFromBytes(b[3:11]) // Skip subjectKey group and schema bytes
-	subjectKey := b[11:]                     // Everything after timestamp
+	timestamp := binu.TimeFromBytes(b[3:])          // Skip subjectKey group and schema bytes
+	subjectKey := b[3+binu.EncodedTimeSize(b[3:]):] // Everything after timestamp
 	return Timer{
 		Key:       subjectKey,
 		Timestamp: timestamp,
-- 
2.43.0


From ad68a4ea655f7c8135a12c636f604d3de3c99d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:55 +0000
Subject: [PATCH 68/68] fix: an operator's watermark doesn't go back when a
 source runner is deployed again

---
 workers/operator/timer_registry.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/workers/operator/timer_registry.go b/workers/operator/timer_registry.go
index 70e49dd..eaefe78 100644
--- a/workers/operator/timer_registry.go
+++ b/workers/operator/timer_registry.go
@@ -49,7 +49,11 @@ func (r *TimerRegistry) SetTimer(key []byte, t time.Time) {
 // AdvanceWatermark registers a watermark and returns a list of keyed timer
 // values that are due for processing.
 func (r *TimerRegistry) AdvanceWatermark(senderID string, wm *workerpb.Watermark) iter.Seq2[[]byte, time.Time] {
-	r.upstreams[senderID] = wm.Timestamp.AsTime()
+	// A source runner's watermark starts over when it's deployed again, which may
+	// be ahead of this operator.
+	if ts := wm.Timestamp.AsTime(); ts.After(r.upstreams[senderID]) {
+		r.upstreams[senderID] = ts
+	}
 	compositeWatermark := iteru.MinFunc(maps.Values(r.upstreams), time.Time.Compare)
 	r.watermark = compositeWatermark
 
-- 
2.43.0

