From c919dc712163692ad88a3f02e88875ad7d526a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 01/31] fix: keep decoding of damaged leaves inside the block

A corrupted item count, data offset or data size made the scan panic.
---
 pkg/btrfs/leaf.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..e205dde 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,15 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+// Data returns the data stored with this item. Guards against items that hold
+// less data than their size claims.
+func (i Item) Data() []byte {
+	if uint64(len(i)) < ItemLen+uint64(i.Size()) {
+		return i[ItemLen:]
+	}
+	return i[ItemLen : ItemLen+i.Size()]
+}
 
 type Leaf []byte
 
@@ -69,7 +77,7 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,10 +104,13 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	o := HeaderLen + uint64(item.Offset())
+	// Guard against invalid Item offsets and lengths.
+	leafLen := uint64(len(l))
+	if o > leafLen {
+		o = leafLen
+	}
+	e := o + uint64(item.Size())
 	if e > leafLen {
 		e = leafLen
 	}
-- 
2.43.0


From f06f7fb411fcf46de57f6d6aae329608b8f02e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 02/31] fix: make index lookups and ranges return the visible
 version of each key

A lookup at a generation strictly between two stored versions returned the
newer one, and ranges stopped early, repeated keys or came back empty when
generations differed between neighbours or the first key was not stored.
---
 pkg/btrfs/index/index_store.go | 103 +++++++++++++--------------------
 1 file changed, 41 insertions(+), 62 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..af65693 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -259,61 +259,29 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
+// find finds the version of an FS key under a given owner that is visible at
+// the given generation: the one with the highest generation number smaller than
+// or equal to it. If all versions are newer, it finds the oldest one.
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
-	var found keyV2
-	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
-		return found, v
+	prefix := search[:keyV2Generation]
+	if bytes.Equal(prefix, metadataKey[:keyV2Generation]) {
+		return nil, nil // Not an FS key
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
-		found[:keyV2Generation], search[:keyV2Generation]) {
-		return found, v
+	next, v := c.Seek(search)
+	if bytes.Equal(next, search) {
+		return next, v
 	}
-	return nil, nil
-}
-
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
-	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
-	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+	prev, pv := c.Prev()
+	if next == nil {
+		prev, pv = c.Last()
+	}
+	if bytes.HasPrefix(prev, prefix) {
+		return prev, pv
+	}
+	if bytes.HasPrefix(next, prefix) {
+		return next, v
 	}
 	return nil, nil
 }
@@ -336,10 +304,26 @@ func (r *Range) HasNext() bool {
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
-		return r.value.Data()
+	if r.key == nil {
+		return nil
 	}
-	return nil
+	// Skip the remaining versions of the current key
+	return r.seek(append(newIndexKey(r.key.Owner(), r.key.Key(), ^uint64(0)),
+		0))
+}
+
+// seek positions the range at the visible version of the first FS key at or
+// after the given index key.
+func (r *Range) seek(ik keyV2) []byte {
+	if r.key, _ = r.cursor.Seek(ik); r.key == nil {
+		return nil
+	}
+	r.key, r.value = find(r.cursor, r.key.Owner(), r.key.Key(),
+		r.ix.Generation)
+	if r.key == nil {
+		return nil
+	}
+	return r.value.Data()
 }
 
 func (r *Range) Owner() uint64      { return r.key.Owner() }
@@ -347,20 +331,15 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys.
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
-	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
-	if r.key != nil {
-		return r, r.value.Data()
+		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
-	return r, nil
+	v := r.seek(newIndexKey(owner, first, 0))
+	return r, v
 }
 
 // RangeAll returns an index range for all items related to the key (t id ?).
-- 
2.43.0


From a457c6ab05759019c02967e491a221be52706e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 03/31] fix: do not treat the index header record as an item in
 full ranges

dump-index crashed on the header record, always for an empty index.
---
 pkg/btrfs/index/index_store.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index af65693..27732cc 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -351,9 +351,14 @@ type FullRange struct {
 	Range
 }
 
+// HasNext returns whether the range holds an item. The index metadata, which
+// always sorts last, is not an item.
+func (r *FullRange) HasNext() bool {
+	return r.key != nil && !bytes.Equal(r.key, metadataKey)
+}
+
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	if r.key, r.value = r.cursor.Next(); r.HasNext() {
 		return r.value.Data()
 	}
 	return nil
@@ -365,11 +370,12 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
+		end:    metadataKey,
 	}}
-	// No check, since openIndex should fail if there's no data
-	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	if r.key, r.value = r.cursor.First(); r.HasNext() {
+		return r, r.value.Data()
+	}
+	return r, nil
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 5bc6e4a3ea4894032eef06099514e038fe5b6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 04/31] fix: release an index that fails its open checks, never
 create one for reading

A refused open kept the file locked, and opening a missing index read-only
created an empty file.
---
 pkg/btrfs/index/index_store.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 27732cc..960e218 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -110,14 +110,22 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 	}
 	ix := &Index{Generation: o.Generation}
 	var err error
+	if o.ReadOnly {
+		// Do not let bbolt create the file
+		if _, err = os.Stat(path); err != nil {
+			return nil, err
+		}
+	}
 	if ix.db, err = bbolt.Open(path, m, &bbolt.Options{
 		ReadOnly: o.ReadOnly}); err != nil {
 		return nil, err
 	}
 	if err = ix.checkUpdateMetadata(o); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
@@ -150,6 +158,9 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 			}
 			return nil
 		}
+		if len(m) < indexMetadataEnd {
+			return errors.New("invalid index in metadata")
+		}
 
 		if !o.AllowOldVersion && m.Version() < MetadataVersion {
 			return fmt.Errorf("metadata version v%d too old, upgrade using "+
-- 
2.43.0


From fac5c78ccc4a1b2200e1d639ebb6b78bfb85c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/31] fix: refuse writes to an index opened for reading

They ended the reading transaction, so that every later query crashed.
---
 pkg/btrfs/index/index_store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 960e218..aa595f8 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -223,6 +223,9 @@ func (ix *Index) ensureTx(writable bool) error {
 // its inline data.
 func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	data []byte) error {
+	if ix.db.IsReadOnly() {
+		return bbolt.ErrDatabaseReadOnly
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
@@ -243,7 +246,7 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 
 // Commit commits any pending transaction.
 func (ix *Index) Commit() error {
-	if ix.tx == nil {
+	if ix.tx == nil || ix.db.IsReadOnly() {
 		return nil
 	}
 	err := ix.tx.Commit()
@@ -261,6 +264,9 @@ func (ix *Index) Commit() error {
 // similar to bbolt.Update() otherwise.
 func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	bucket *bbolt.Bucket) error) error {
+	if ix.db.IsReadOnly() {
+		return bbolt.ErrDatabaseReadOnly
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
-- 
2.43.0


From b63b3ddcb3223cb56bfa8875535494e632ec514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 06/31] fix: roll back a raw transaction whose function fails

Its partial changes stayed in the open transaction and were committed later.
---
 pkg/btrfs/index/index_store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index aa595f8..3d82cf4 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -267,10 +267,17 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	if ix.db.IsReadOnly() {
 		return bbolt.ErrDatabaseReadOnly
 	}
+	// Pending inserts are not part of this transaction
+	if err := ix.Commit(); err != nil {
+		return err
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
 	if err := fn(ix.db, ix.tx, ix.bucket); err != nil {
+		ix.tx.Rollback()
+		ix.tx = nil
+		ix.bucket = nil
 		return err
 	}
 	return ix.Commit()
-- 
2.43.0


From 05d909ce09412bda05176de7de6d95b94ef125d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 07/31] fix: allow queries after a commit and from several
 goroutines

A query after Commit or an automatic commit crashed, and concurrent queries
raced on the transaction's statistics.
---
 pkg/btrfs/index/index_store.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 3d82cf4..9a84419 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"sort"
 	"strings"
+	"sync"
 
 	"fmt"
 
@@ -45,6 +46,7 @@ type stripeMapEntry struct {
 // a memory-mapped key-value store to quickly access FS objects.
 // When opened read/write, concurrent access to this object must be guarded.
 type Index struct {
+	mu     sync.Mutex // Guards starting a transaction and making cursors
 	db     *bbolt.DB
 	tx     *bbolt.Tx
 	bucket *bbolt.Bucket
@@ -187,7 +189,10 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 }
 
 func (ix *Index) Metadata() indexMetadata {
-	return indexMetadata(ix.bucket.Get(metadataKey))
+	if k, v := ix.cursor().Seek(metadataKey); bytes.Equal(k, metadataKey) {
+		return v
+	}
+	return nil
 }
 
 // Close closes the index and its underlying bbolt database.
@@ -218,6 +223,19 @@ func (ix *Index) ensureTx(writable bool) error {
 	return err
 }
 
+// cursor returns a cursor for querying the index, starting a new transaction if
+// the last one was committed. Index must be open.
+func (ix *Index) cursor() *bbolt.Cursor {
+	ix.mu.Lock()
+	defer ix.mu.Unlock()
+	if ix.tx == nil {
+		if err := ix.ensureTx(!ix.db.IsReadOnly()); err != nil {
+			panic(err)
+		}
+	}
+	return ix.bucket.Cursor()
+}
+
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
 // its inline data.
@@ -359,7 +377,7 @@ func (r *Range) Item() btrfs.Item   { return r.value }
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.cursor(),
 		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
 	v := r.seek(newIndexKey(owner, first, 0))
@@ -393,7 +411,7 @@ func (r *FullRange) Next() []byte {
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.cursor(),
 		end:    metadataKey,
 	}}
 	if r.key, r.value = r.cursor.First(); r.HasNext() {
@@ -441,7 +459,7 @@ func (ix *Index) DevItems() (Range, btrfs.DevItem) {
 // to the current index generation. If the index generation is smaller than
 // any existing generation, the data at the earliest generatation is returned.
 func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
-	_, i := find(ix.bucket.Cursor(), owner, k, ix.Generation)
+	_, i := find(ix.cursor(), owner, k, ix.Generation)
 	return i
 }
 
-- 
2.43.0


From 11f49d7b65f350a2a957925b161e4272f16d42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 08/31] fix: keep items of the reserved owner out of the index

An item of a damaged leaf could overwrite the index header record.
---
 pkg/btrfs/index/index_store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 9a84419..6b5c8e2 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -38,6 +38,7 @@ const (
 
 type stripeMapEntry struct {
 	logical uint64
+	length  uint64
 	devID   uint64
 	offset  uint64
 }
@@ -238,12 +239,16 @@ func (ix *Index) cursor() *bbolt.Cursor {
 
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
-// its inline data.
+// its inline data. Items of the owner that is reserved for the index metadata
+// can only stem from a damaged leaf and are left out.
 func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	data []byte) error {
 	if ix.db.IsReadOnly() {
 		return bbolt.ErrDatabaseReadOnly
 	}
+	if h.Owner() == metadataKey.Owner() {
+		return nil
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
-- 
2.43.0


From 9e9907b9ff033c005fa8091cbf553e7dbcf042a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 09/31] fix: map logical addresses only through the chunk that
 covers them

Addresses outside all chunks were extrapolated from a neighbour, an index
without chunks crashed, the stripe map was built by concurrent requests at the
same time and never noticed chunks inserted later. Also removes the debug
output on each first translation.
---
 cmd/recover.go                 | 12 +++++-
 internal/rescuefs/files.go     |  2 +-
 pkg/btrfs/btrfs.go             |  5 +++
 pkg/btrfs/index/index_store.go | 67 ++++++++++++++++++++++++----------
 4 files changed, 63 insertions(+), 23 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..2d54e28 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -183,7 +183,11 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 					return fmt.Errorf("write zeros failed: %w", err)
 				}
 			} else {
-				_, physOffset := ix.Physical(e.DiskByteNr())
+				_, physOffset, _, ok := ix.Physical(e.DiskByteNr())
+				if !ok {
+					return fmt.Errorf("no chunk for logical address %d",
+						e.DiskByteNr())
+				}
 				srcOffset := physOffset + e.Offset()
 
 				const chunkSize = 1024 * 1024
@@ -241,7 +245,11 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		target = e.Data()
 	} else {
 		if e.DiskByteNr() > 0 && devFile != nil {
-			_, physOffset := ix.Physical(e.DiskByteNr())
+			_, physOffset, _, ok := ix.Physical(e.DiskByteNr())
+			if !ok {
+				return fmt.Errorf("no chunk for logical address %d",
+					e.DiskByteNr())
+			}
 			srcOffset := physOffset + e.Offset()
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..02ef5df 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -47,7 +47,7 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		var phys uint64
 		var dev uint64
 		if e.DiskByteNr() > 0 {
-			dev, phys = fs.ix.Physical(e.DiskByteNr())
+			dev, phys, _, _ = fs.ix.Physical(e.DiskByteNr())
 		}
 		f.extentMap = append(f.extentMap, extentMapEntry{
 			fileOffset: r.Key().Offset,
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..35656f3 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -416,6 +416,11 @@ const (
 	chunkStripes    = chunkSubStripes + 2
 )
 
+// IsValid returns whether this chunk is complete and has at least one stripe.
+func (c Chunk) IsValid() bool {
+	return len(c) >= chunkStripes+stripeEnd && c.NumStripes() > 0
+}
+
 // Length returns the size of this chunk in bytes
 func (c Chunk) Length() uint64 { return SliceUint64LE(c[chunkLength:]) }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 6b5c8e2..362b325 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -56,6 +56,7 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
+	stripeMu  sync.Mutex // Guards stripeMap
 	stripeMap []stripeMapEntry
 }
 
@@ -252,6 +253,9 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
+	if k.Type == btrfs.ChunkItemKey {
+		ix.resetStripes()
+	}
 	l := btrfs.ItemLen + len(data)
 	tc := make([]byte, l)
 	copy(tc, item)
@@ -297,6 +301,7 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
+	defer ix.resetStripes()
 	if err := fn(ix.db, ix.tx, ix.bucket); err != nil {
 		ix.tx.Rollback()
 		ix.tx = nil
@@ -491,40 +496,62 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 }
 
 // Physical maps a filesystem logical address to a physical, on-disk address.
-// Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk.
-func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
+// The returned length is the number of bytes, starting at the logical address,
+// that the answer applies to, and ok is false if no chunk covers them.
+func (ix *Index) Physical(logical uint64) (devID, offset, length uint64,
+	ok bool) {
+	stripeMap := ix.stripes()
+	// Index structure entries are sorted, find the last chunk that starts at
+	// or before the logical address and covers it.
+	i := sort.Search(len(stripeMap), func(i int) bool {
+		return stripeMap[i].logical > logical
+	})
+	length = ^uint64(0)
+	if logical > 0 {
+		length = -logical // Up to the end of the address space
+	}
+	if i < len(stripeMap) {
+		length = stripeMap[i].logical - logical
+	}
+	for i--; i >= 0; i-- {
+		s := stripeMap[i]
+		if delta := logical - s.logical; delta < s.length {
+			if rest := s.length - delta; rest < length {
+				length = rest
+			}
+			return s.devID, s.offset + delta, length, true
+		}
+	}
+	return 0, 0, length, false
+}
+
+// stripes returns the first stripe of each chunk, sorted by logical address.
+func (ix *Index) stripes() []stripeMapEntry {
+	ix.stripeMu.Lock()
+	defer ix.stripeMu.Unlock()
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
-			if c.NumStripes() == 0 {
+			if !c.IsValid() {
 				// Invalid chunk, should always have at least one stripe
 				continue
 			}
 			s := c.Stripe(0)
 			ix.stripeMap = append(ix.stripeMap, stripeMapEntry{
 				logical: r.Key().Offset,
+				length:  c.Length(),
 				devID:   s.DevID(),
 				offset:  s.Offset()})
-			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
+	return ix.stripeMap
+}
 
-	stripeMapLen := len(ix.stripeMap)
-	// Index structure entries are sorted
-	i := sort.Search(stripeMapLen, func(i int) bool {
-		return ix.stripeMap[i].logical >= logical
-	})
-	if i == stripeMapLen || (i > 0 && ix.stripeMap[i].logical != logical) {
-		// Not found, adjust index value, as it's an insertion point (see
-		// documentation for sort.Search()). Unless i was 0, in which case the
-		// position is fine.
-		i--
-	}
-	s := ix.stripeMap[i]
-	// TODO(cblichmann): We can check for the failure case if we store the
-	//                   stripe length in the cache and do a range check here.
-	return s.devID, s.offset + logical - s.logical
+// resetStripes forgets the stripes after the index was written to.
+func (ix *Index) resetStripes() {
+	ix.stripeMu.Lock()
+	defer ix.stripeMu.Unlock()
+	ix.stripeMap = nil
 }
 
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-- 
2.43.0


From cd8061afcc708bae8c13b77aec1c65975a3d873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 10/31] fix: handle all entries of a directory or attribute
 item, and malformed ones

Names with the same hash share one item, of which only the first was listed,
recovered or looked up. An item cut short crashed every command.
---
 cmd/ls.go                      |  5 +----
 cmd/recover.go                 |  7 +------
 internal/rescuefs/nodefs.go    |  6 +++---
 pkg/btrfs/btrfs.go             | 18 ++++++++++++++++++
 pkg/btrfs/index/index_store.go | 27 ++++++++++++++++++++++-----
 5 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..835f935 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -96,10 +96,7 @@ func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	recursive, showInode bool) {
-	dis := dirItemSlice{}
-	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
-	}
+	dis := dirItemSlice(ix.DirEntries(owner, dirID))
 	sort.Sort(dis)
 	todo := dirItemSlice{}
 	for _, di := range dis {
diff --git a/cmd/recover.go b/cmd/recover.go
index 2d54e28..c2c3103 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -95,12 +95,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 		return err
 	}
 
-	dis := []btrfs.DirItem{}
-	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
-	}
-
-	for _, di := range dis {
+	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
 		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..210197b 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -134,7 +134,7 @@ func (n *rescueNode) ensureDirItems() {
 	if len(n.dirItems) > 0 {
 		return
 	}
-	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
+	for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
 		n.dirItems[d.Name()] = d
 	}
 }
@@ -194,7 +194,7 @@ func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 	data []byte, code fuse.Status) {
 	// TODO(cblichmann): This should use btrfs.NameHash() for lookup
-	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
+	for _, x := range n.ix.XAttrEntries(n.owner, n.ixInode) {
 		if x.Name() == attribute {
 			return []byte(x.Data()), fuse.OK
 		}
@@ -204,7 +204,7 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 
 func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 	attrs := []string{}
-	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
+	for _, x := range n.ix.XAttrEntries(n.owner, n.ixInode) {
 		attrs = append(attrs, x.Name())
 	}
 	return attrs, fuse.OK
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 35656f3..f291f77 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -570,6 +570,24 @@ func (d DirItem) Data() string {
 	return string(d[o : o+d.DataLen()])
 }
 
+// Entries splits a stored directory item into its entries: names with the same
+// hash share a single item. Incomplete entries and those without a valid name
+// are left out.
+func (d DirItem) Entries() []DirItem {
+	entries := []DirItem{}
+	for len(d) >= dirItemName {
+		l := dirItemName + int(d.NameLen()) + int(d.DataLen())
+		if l > len(d) {
+			break
+		}
+		if n := d.NameLen(); n > 0 && n <= 255 {
+			entries = append(entries, d[:l])
+		}
+		d = d[l:]
+	}
+	return entries
+}
+
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 362b325..0275138 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -444,6 +444,22 @@ func (ix *Index) DirItems(owner, id uint64) (Range, btrfs.DirItem) {
 	return ix.RangeAll(owner, btrfs.DirItemKey, id)
 }
 
+// DirEntries returns all well-formed entries of a directory.
+func (ix *Index) DirEntries(owner, id uint64) (entries []btrfs.DirItem) {
+	for r, v := ix.DirItems(owner, id); r.HasNext(); v = r.Next() {
+		entries = append(entries, v.Entries()...)
+	}
+	return
+}
+
+// XAttrEntries returns all well-formed extended attributes of an inode.
+func (ix *Index) XAttrEntries(owner, id uint64) (entries []btrfs.DirItem) {
+	for r, v := ix.XAttrItems(owner, id); r.HasNext(); v = r.Next() {
+		entries = append(entries, v.Entries()...)
+	}
+	return
+}
+
 func (ix *Index) XAttrItems(owner, id uint64) (Range, btrfs.DirItem) {
 	return ix.RangeAll(owner, btrfs.XAttrItemKey, id)
 }
@@ -568,15 +584,16 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
 			uint64(NameHash(comp)))); v != nil {
-			d = v.Data()
-			if found = d.Name() == comp; found {
-				result = d
+			for _, d = range btrfs.DirItem(v.Data()).Entries() {
+				if found = d.Name() == comp && (d.IsDir() || last); found {
+					result = d
+					break
+				}
 			}
 		}
 		if !found {
 			// Slow path: Lookup items in directory (dirID, BTRFS_DIR_INDEX, ?)
-			var r Range
-			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
+			for _, d = range ix.DirEntries(owner, dirID) {
 				if found = d.Name() == comp && (d.IsDir() || last); found {
 					result = d
 					break
-- 
2.43.0


From 575ad5b3ce75a6190cbc63914932ea65318089f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 11/31] fix: list subvolumes with their own tree, and each
 directory once

ls looked up entries below a subvolume in the parent's tree, and a recursive
listing of directories that contain each other never ended.
---
 cmd/ls.go                      | 22 ++++++++++++++--------
 pkg/btrfs/btrfs.go             |  9 +++++++++
 pkg/btrfs/index/index_store.go | 19 +++++++++----------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 835f935..2b939a5 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -63,7 +63,7 @@ func shortTime(t time.Time) string {
 
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
+	owner, inode := di.Target(owner)
 	if showInode {
 		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
 	}
@@ -95,21 +95,25 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice(ix.DirEntries(owner, dirID))
 	sort.Sort(dis)
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
+		subOwner, subDirID := di.Target(owner)
+		if visited[[2]uint64{subOwner, subDirID}] {
+			continue // Another name of a directory, or a cycle
+		}
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		listDirectory(w, ix, subOwner, subDirID, true, showInode, visited)
 	}
 }
 
@@ -163,21 +167,23 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if o, di := ix.FindDirItemForPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
-			listDirItem(w, ix, owner, di, options.Inode)
+			listDirItem(w, ix, o, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			subOwner, subDirID := di.Target(o)
+			todo = append(todo, Todo{subOwner, subDirID})
 		}
 	}
 	w.Flush()
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index f291f77..0a82b65 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -588,6 +588,15 @@ func (d DirItem) Entries() []DirItem {
 	return entries
 }
 
+// Target returns the owner and inode number of the object that this entry of a
+// directory of the given owner refers to.
+func (d DirItem) Target(owner uint64) (uint64, uint64) {
+	if d.IsSubvolume() {
+		return d.Location().ObjectID, FirstFreeObjectID
+	}
+	return owner, d.Location().ObjectID
+}
+
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 0275138..c5a5f48 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -570,9 +570,11 @@ func (ix *Index) resetStripes() {
 	ix.stripeMap = nil
 }
 
-// FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-// the path is clean, as returned by path.Clean().
-func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
+// FindDirItemForPath finds the DirItem for a given FS path and the owner of the
+// directory that contains it. It assumes that the path is clean, as returned by
+// path.Clean().
+func (ix *Index) FindDirItemForPath(owner uint64, path string) (uint64,
+	btrfs.DirItem) {
 	result := btrfs.DirItem(nil)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
@@ -602,16 +604,13 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		}
 
 		if !found {
-			return nil
+			return 0, nil
 		}
-		if !d.IsSubvolume() {
-			dirID = d.Location().ObjectID
-		} else {
-			owner = d.Location().ObjectID
-			dirID = btrfs.FirstFreeObjectID
+		if !last {
+			owner, dirID = d.Target(owner)
 		}
 	}
-	return result
+	return owner, result
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From b5adc7f83b80595041ec27281dc539e82d453e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 12/31] fix: leave out inode and file extent items that are cut
 short

Reading their fields crashed ls, recover and the mounted view.
---
 pkg/btrfs/btrfs.go             | 18 ++++++++++++++++++
 pkg/btrfs/index/index_store.go |  8 ++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 0a82b65..a11fb56 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -483,6 +483,9 @@ const (
 	InodeItemLen      = inodeItemOtime + 12
 )
 
+// IsValid returns whether this inode item is complete.
+func (i InodeItem) IsValid() bool { return len(i) >= InodeItemLen }
+
 func (i InodeItem) Generation() uint64 { return SliceUint64LE(i[inodeItemGeneration:]) }
 func (i InodeItem) TransID() uint64    { return SliceUint64LE(i[inodeItemTransID:]) }
 func (i InodeItem) Size() uint64       { return SliceUint64LE(i[inodeItemSize:]) }
@@ -654,6 +657,21 @@ const (
 	FileExtentItemEnd          = fileExtentItemNumBytes + 8
 )
 
+// IsValid returns whether this file extent item is complete.
+func (i FileExtentItem) IsValid() bool {
+	if len(i) < fileExtentItemDiskByteNr {
+		return false
+	}
+	switch i.Type() {
+	case FileExtentInline:
+		return i.RAMBytes() <= uint64(len(i)-fileExtentItemDiskByteNr)
+	case FileExtentReg, FileExtentPreAlloc:
+		return len(i) >= FileExtentItemEnd
+	default:
+		return false
+	}
+}
+
 // Transaction id that created this extent
 func (i FileExtentItem) Generation() uint64 { return SliceUint64LE(i[fileExtentItemGeneration:]) }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c5a5f48..cd1af22 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -491,14 +491,18 @@ func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
 
 func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
 	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
-		return i.Data()
+		if ii := btrfs.InodeItem(i.Data()); ii.IsValid() {
+			return ii
+		}
 	}
 	return nil
 }
 
 func (ix *Index) FindFileExtentItem(owner uint64, id uint64) btrfs.FileExtentItem {
 	if i := ix.FindItem(owner, KF(btrfs.ExtentDataKey, id)); i != nil {
-		return i.Data()
+		if e := btrfs.FileExtentItem(i.Data()); e.IsValid() {
+			return e
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 7f65e21736ad257b5eb33fe36060e58f295f8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 13/31] fix: recover every file byte from its newest extent,
 and all readable ones

Extents of older generations overwrote newer ones, preallocated space was
filled with old device data, extents were copied beyond the end of their chunk,
malformed extents crashed, holes were buffered in memory, and an unreadable
extent kept the following ones from being recovered.
---
 cmd/recover.go                  | 128 +++++++++++++++++---------------
 pkg/btrfs/btrfs.go              |   8 +-
 pkg/btrfs/index/file_extents.go | 117 +++++++++++++++++++++++++++++
 3 files changed, 189 insertions(+), 64 deletions(-)
 create mode 100644 pkg/btrfs/index/file_extents.go

diff --git a/cmd/recover.go b/cmd/recover.go
index c2c3103..91f122f 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -148,77 +148,85 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
-	r, e := ix.FileExtentItems(owner, inode)
-	if !r.HasNext() {
-		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
+	// Recover as much as possible, even if some of the data cannot be read
+	var firstErr error
+	extents := ix.FileExtents(owner, inode)
+	for _, e := range extents {
+		if ii == nil {
+			fileSize = e.End()
+		} else if e.Offset >= fileSize {
+			break
+		} else if e.End() > fileSize {
+			e.Length = fileSize - e.Offset
 		}
-		return nil
+
+		var err error
+		if e.Data != nil {
+			if _, err = f.WriteAt(e.Data[:e.Length], int64(e.Offset)); err != nil {
+				err = fmt.Errorf("write inline data failed: %w", err)
+			}
+		} else if e.Logical != 0 {
+			err = recoverExtent(ix, devFile, f, e)
+		}
+		if err != nil && firstErr == nil {
+			firstErr = err
+		}
+	}
+
+	if err := f.Truncate(int64(fileSize)); err != nil {
+		return fmt.Errorf("truncate failed: %w", err)
 	}
+	return firstErr
+}
 
-	for ; r.HasNext(); e = r.Next() {
-		fileOffset := r.Key().Offset
+// recoverExtent copies the device data of a file extent. Ranges that cannot be
+// read are skipped and reported.
+func recoverExtent(ix *index.Index, devFile, f *os.File, e index.FileExtent) error {
+	const chunkSize = 1024 * 1024
+	buf := make([]byte, chunkSize)
 
-		if e.IsInline() {
-			inlineData := []byte(e.Data())
-			limit := len(inlineData)
-			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
-				limit = int(fileSize - fileOffset)
+	var firstErr error
+	report := func(err error) {
+		if firstErr == nil {
+			firstErr = err
+		}
+	}
+	for bytesCopied := uint64(0); bytesCopied < e.Length; {
+		_, srcOffset, numBytes, ok := ix.Physical(e.Logical + bytesCopied)
+		if numBytes > e.Length-bytesCopied {
+			numBytes = e.Length - bytesCopied
+		}
+		if !ok {
+			report(fmt.Errorf("no chunk for logical address %d",
+				e.Logical+bytesCopied))
+			bytesCopied += numBytes
+			continue
+		}
+		end := bytesCopied + numBytes
+		for bytesCopied < end {
+			toCopy := end - bytesCopied
+			if toCopy > chunkSize {
+				toCopy = chunkSize
 			}
-			if limit > 0 {
-				if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
-					return fmt.Errorf("write inline data failed: %w", err)
+
+			n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset))
+			if n > 0 {
+				if _, wErr := f.WriteAt(buf[:n], int64(e.Offset+bytesCopied)); wErr != nil {
+					return fmt.Errorf("write file data failed: %w", wErr)
 				}
+				bytesCopied += uint64(n)
+				srcOffset += uint64(n)
 			}
-		} else {
-			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
-				}
-			} else {
-				_, physOffset, _, ok := ix.Physical(e.DiskByteNr())
-				if !ok {
-					return fmt.Errorf("no chunk for logical address %d",
-						e.DiskByteNr())
-				}
-				srcOffset := physOffset + e.Offset()
-
-				const chunkSize = 1024 * 1024
-				buf := make([]byte, chunkSize)
-
-				var bytesCopied uint64 = 0
-				for bytesCopied < numBytes {
-					toCopy := numBytes - bytesCopied
-					if toCopy > chunkSize {
-						toCopy = chunkSize
-					}
-
-					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
-					if n > 0 {
-						if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
-							return fmt.Errorf("write file data failed: %w", wErr)
-						}
-						bytesCopied += uint64(n)
-					}
-					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
-							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
-						}
-						break
-					}
+			if err != nil {
+				if err == io.EOF && bytesCopied == end {
+					break
 				}
+				report(fmt.Errorf("error reading device/image: %w", err))
+				bytesCopied = end
 			}
 		}
 	}
-
-	if ii != nil {
-		if err := f.Truncate(int64(fileSize)); err != nil {
-			return fmt.Errorf("truncate failed: %w", err)
-		}
-	}
-	return nil
+	return firstErr
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index a11fb56..c3c8517 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -714,11 +714,11 @@ func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
-	if l > DefaultBlockSize {
-		l = DefaultBlockSize
+	data := i[fileExtentItemDiskByteNr:]
+	if l := i.RAMBytes(); l < uint64(len(data)) {
+		data = data[:l]
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return string(data)
 }
 
 type CSumItem []byte
diff --git a/pkg/btrfs/index/file_extents.go b/pkg/btrfs/index/file_extents.go
new file mode 100644
index 0000000..d814845
--- /dev/null
+++ b/pkg/btrfs/index/file_extents.go
@@ -0,0 +1,117 @@
+// Copyright btrfscue authors
+// SPDX-License-Identifier: BSD-2-Clause
+
+// File contents as designated by file extent items
+
+package index
+
+import (
+	"container/heap"
+
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
+)
+
+// FileExtent designates the contents of a range of a file.
+type FileExtent struct {
+	Offset uint64 // Position in the file
+	Length uint64
+	// Inline data, nil if there is none.
+	Data []byte
+	// Logical address of the data on disk. Zero for ranges that read as zero
+	// (if there is no inline data), namely holes and preallocated space.
+	Logical uint64
+
+	generation uint64
+}
+
+// End returns the position in the file just after this extent.
+func (e *FileExtent) End() uint64 { return e.Offset + e.Length }
+
+// part returns the part of the extent in between two file positions.
+func (e *FileExtent) part(start, end uint64) FileExtent {
+	p := *e
+	delta := start - e.Offset
+	p.Offset, p.Length = start, end-start
+	if p.Data != nil {
+		p.Data = p.Data[delta : delta+p.Length]
+	} else if p.Logical != 0 {
+		p.Logical += delta
+	}
+	return p
+}
+
+func newFileExtent(offset, generation uint64, i btrfs.FileExtentItem) (
+	e FileExtent, ok bool) {
+	if !i.IsValid() {
+		return e, false
+	}
+	e = FileExtent{Offset: offset, generation: generation}
+	if i.IsInline() {
+		e.Data = []byte(i.Data())
+		e.Length = uint64(len(e.Data))
+	} else {
+		e.Length = i.NumBytes()
+		if i.Type() == btrfs.FileExtentReg && i.DiskByteNr() != 0 {
+			e.Logical = i.DiskByteNr() + i.Offset()
+			if e.Logical < i.Offset() || e.Logical+e.Length < e.Length {
+				return e, false
+			}
+		}
+	}
+	return e, e.Length > 0 && e.End() > e.Offset
+}
+
+// extentHeap is a heap with the newest extent on top.
+type extentHeap []FileExtent
+
+func (h extentHeap) Len() int { return len(h) }
+func (h extentHeap) Less(i, j int) bool {
+	if h[i].generation != h[j].generation {
+		return h[i].generation > h[j].generation
+	}
+	return h[i].Offset > h[j].Offset
+}
+func (h extentHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *extentHeap) Push(x interface{}) { *h = append(*h, x.(FileExtent)) }
+func (h *extentHeap) Pop() interface{} {
+	last := len(*h) - 1
+	x := (*h)[last]
+	*h = (*h)[:last]
+	return x
+}
+
+// FileExtents returns what the contents of a file consist of, in file order and
+// without overlaps. Where stored extents of different generations overlap, the
+// newest one designates the contents. Ranges in between read as zero.
+func (ix *Index) FileExtents(owner, id uint64) []FileExtent {
+	var stored []FileExtent
+	for r, v := ix.FileExtentItems(owner, id); r.HasNext(); v = r.Next() {
+		if e, ok := newFileExtent(r.Key().Offset, r.Generation(), v); ok {
+			stored = append(stored, e)
+		}
+	}
+
+	var extents []FileExtent
+	var active extentHeap // Extents that start at or before pos
+	pos := uint64(0)
+	for len(stored) > 0 || len(active) > 0 {
+		if len(active) == 0 {
+			pos = stored[0].Offset
+		}
+		for len(stored) > 0 && stored[0].Offset <= pos {
+			heap.Push(&active, stored[0])
+			stored = stored[1:]
+		}
+		if active[0].End() <= pos {
+			heap.Pop(&active)
+			continue
+		}
+		end := active[0].End()
+		if len(stored) > 0 && stored[0].Offset < end {
+			end = stored[0].Offset
+		}
+		extents = append(extents, active[0].part(pos, end))
+		pos = end
+	}
+	return extents
+}
-- 
2.43.0


From 5483be45e421dbef9709bb98a8317fdc31439193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 14/31] fix: never follow links below the recovery destination

A symlink in the destination, existing or just recovered, redirected recovered
directories and files outside of it, and clobbering a hard link or device wrote
to it instead of replacing it. Clobbering also removed empty directories, and
removed an existing file even if there was nothing to replace it with.
---
 cmd/recover.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 91f122f..564b4e8 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -57,6 +57,9 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	if err := os.MkdirAll(destDir, 0755); err != nil {
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
 	}
+	// Links are only followed up to the destination directory
+	destDir, err = filepath.EvalSymlinks(destDir)
+	cliutil.ReportError(err)
 
 	visited := make(map[[2]uint64]bool)
 
@@ -91,7 +94,9 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	}
 	visited[key] = true
 
-	if err := os.MkdirAll(currentDest, 0755); err != nil {
+	if fi, err := os.Lstat(currentDest); err == nil && !fi.IsDir() {
+		return fmt.Errorf("%s exists and is not a directory", currentDest)
+	} else if err := os.MkdirAll(currentDest, 0755); err != nil {
 		return err
 	}
 
@@ -128,11 +133,29 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
+// removeExisting makes room for a recovered file or symlink. It removes links
+// instead of following them, and never removes a directory.
+func removeExisting(targetPath string) error {
+	fi, err := os.Lstat(targetPath)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if fi.IsDir() {
+		return fmt.Errorf("%s exists and is a directory", targetPath)
+	}
+	return os.Remove(targetPath)
+}
+
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
+	if _, err := os.Lstat(targetPath); err == nil && !options.clobber {
 		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
 		return nil
 	}
+	if err := removeExisting(targetPath); err != nil {
+		return err
+	}
 
 	ii := ix.FindInodeItem(owner, inode)
 	var fileSize uint64
@@ -140,7 +163,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
 	if err != nil {
 		return err
 	}
@@ -235,7 +258,6 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
 			return nil
 		}
-		_ = os.Remove(targetPath)
 	}
 
 	e := ix.FindFileExtentItem(owner, inode)
@@ -254,6 +276,9 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 					e.DiskByteNr())
 			}
 			srcOffset := physOffset + e.Offset()
+			if e.NumBytes() > 4096 {
+				return fmt.Errorf("symlink target too long: %d bytes", e.NumBytes())
+			}
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
 				target = string(buf)
@@ -265,6 +290,12 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		}
 	}
 
+	if len(target) == 0 || len(target) > 4095 || strings.Contains(target, "\x00") {
+		return fmt.Errorf("invalid symlink target of %d bytes", len(target))
+	}
+	if err := removeExisting(targetPath); err != nil {
+		return err
+	}
 	cliutil.Verbosef("recovering symlink: %s -> %s\n", targetPath, target)
 	return os.Symlink(target, targetPath)
 }
-- 
2.43.0


From daf26308c392d2d5ef4d36ec5cdf45b51fa45239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 15/31] fix: restore a directory elsewhere if its first path
 cannot be created

It counted as visited, so that other names and the subvolume sweep skipped it.
---
 cmd/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 564b4e8..e7b7204 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -92,13 +92,13 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	if visited[key] {
 		return nil
 	}
-	visited[key] = true
 
 	if fi, err := os.Lstat(currentDest); err == nil && !fi.IsDir() {
 		return fmt.Errorf("%s exists and is not a directory", currentDest)
 	} else if err := os.MkdirAll(currentDest, 0755); err != nil {
 		return err
 	}
+	visited[key] = true
 
 	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
-- 
2.43.0


From cfbbdd5866b1752b704ae434d9b690d8f7c32a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 16/31] fix: make reads of mounted files return exactly the
 file's bytes

Reads across several extents returned short or misplaced data, nothing was cut
off at the end of the file, files with an inline extent ignored all other
extents, reading past their end crashed, files without extents could not be
opened, and unreadable data read as garbage or zeros.
---
 cmd/mount.go                |   8 +-
 internal/rescuefs/files.go  | 157 ++++++++++++++++--------------------
 internal/rescuefs/nodefs.go |  15 +---
 3 files changed, 77 insertions(+), 103 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 29b496f..009f586 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -8,6 +8,7 @@
 package cmd
 
 import (
+	"io"
 	"os"
 	"os/signal"
 	"syscall"
@@ -56,7 +57,12 @@ func doMountRescueFS(args []string, metadata string) {
 			"visible\n")
 	}
 
-	fs := rescuefs.New(app.Global.Metadata, ix, dev)
+	// Keep the interface nil if there is no device file
+	var devReader io.ReaderAt
+	if dev != nil {
+		devReader = dev
+	}
+	fs := rescuefs.New(app.Global.Metadata, ix, devReader)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
 	go fs.Serve()
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 02ef5df..430c3c2 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,54 +8,35 @@
 package rescuefs
 
 import (
-	"io"
+	"sort"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
 
-type extentMapEntry struct {
-	fileOffset uint64
-	length     uint64
-	physOffset uint64
-	diskByteNr uint64
-	devID      uint64
-}
-
 type extentFile struct {
 	nodefs.File
-	fs        *rescueFS
-	owner     uint64
-	inode     uint64
-	extentMap []extentMapEntry
+	fs      *rescueFS
+	owner   uint64
+	inode   uint64
+	size    uint64
+	extents []index.FileExtent
 }
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
-	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
-		return nil
-	}
 	f := &extentFile{
-		File:      nodefs.NewReadOnlyFile(nodefs.NewDefaultFile()),
-		fs:        fs,
-		owner:     owner,
-		inode:     id,
-		extentMap: make([]extentMapEntry, 0, 1),
+		File:    nodefs.NewReadOnlyFile(nodefs.NewDefaultFile()),
+		fs:      fs,
+		owner:   owner,
+		inode:   id,
+		extents: fs.ix.FileExtents(owner, id),
 	}
-	for ; r.HasNext(); e = r.Next() {
-		var phys uint64
-		var dev uint64
-		if e.DiskByteNr() > 0 {
-			dev, phys, _, _ = fs.ix.Physical(e.DiskByteNr())
-		}
-		f.extentMap = append(f.extentMap, extentMapEntry{
-			fileOffset: r.Key().Offset,
-			length:     e.NumBytes(),
-			physOffset: phys + e.Offset(),
-			diskByteNr: e.DiskByteNr(),
-			devID:      dev,
-		})
+	if ii := fs.ix.FindInodeItem(owner, id); ii != nil {
+		f.size = ii.Size()
+	} else if len(f.extents) > 0 {
+		f.size = f.extents[len(f.extents)-1].End()
 	}
 	return f
 }
@@ -83,12 +64,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 
 	// Fallback if inode item is not found in metadata
 	out.Mode = fuse.S_IFREG | 0644
-	var size uint64
-	if len(f.extentMap) > 0 {
-		last := f.extentMap[len(f.extentMap)-1]
-		size = last.fileOffset + last.length
-	}
-	out.Size = size
+	out.Size = f.size
 	return fuse.OK
 }
 
@@ -96,64 +72,69 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 	if off < 0 {
 		return nil, fuse.EINVAL
 	}
+	start := uint64(off)
+	if start >= f.size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if rest := f.size - start; uint64(len(buf)) > rest {
+		buf = buf[:rest]
+	}
+	end := start + uint64(len(buf))
+	// Ranges that are not part of any extent read as zero
+	for i := range buf {
+		buf[i] = 0
+	}
 
-	bytesRead := 0
-	bufLen := len(buf)
-
-	for _, entry := range f.extentMap {
-		if off >= int64(entry.fileOffset+entry.length) {
-			continue
-		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
+	first := sort.Search(len(f.extents), func(i int) bool {
+		return f.extents[i].End() > start
+	})
+	for _, e := range f.extents[first:] {
+		if e.Offset >= end {
 			break
 		}
 
 		// Calculate overlap between the requested range and the current extent
-		extentStart := int64(entry.fileOffset)
-		extentEnd := int64(entry.fileOffset + entry.length)
-
-		readStart := off
-		if readStart < extentStart {
-			readStart = extentStart
-		}
-
-		readEnd := off + int64(bufLen-bytesRead)
-		if readEnd > extentEnd {
-			readEnd = extentEnd
+		readStart, readEnd := start, end
+		if readStart < e.Offset {
+			readStart = e.Offset
 		}
-
-		if readEnd <= readStart {
-			continue
+		if readEnd > e.End() {
+			readEnd = e.End()
 		}
 
-		chunkSize := readEnd - readStart
-		destOffset := readStart - off
-
-		if entry.diskByteNr == 0 {
-			// Sparse hole: fill with zeros
-			for i := int64(0); i < chunkSize; i++ {
-				buf[destOffset+i] = 0
-			}
-		} else {
-			// Read from physical device
-			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
-			if f.fs.dev == nil {
-				// No device file provided: return zeroes
-				for i := int64(0); i < chunkSize; i++ {
-					buf[destOffset+i] = 0
-				}
-			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
-					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
-					return nil, fuse.EIO
-				}
+		dest := buf[readStart-start : readEnd-start]
+		delta := readStart - e.Offset
+		if e.Data != nil {
+			copy(dest, e.Data[delta:])
+		} else if e.Logical != 0 {
+			if code := f.readDevice(dest, e.Logical+delta); !code.Ok() {
+				return nil, code
 			}
 		}
-		bytesRead += int(chunkSize)
 	}
+	return fuse.ReadResultData(buf), fuse.OK
+}
 
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
+// readDevice reads device data at a logical address.
+func (f *extentFile) readDevice(buf []byte, logical uint64) fuse.Status {
+	if f.fs.dev == nil {
+		return fuse.EIO
 	}
-	return fuse.ReadResultData(buf), fuse.OK
+	for len(buf) > 0 {
+		_, phys, length, ok := f.fs.ix.Physical(logical)
+		if !ok {
+			cliutil.Warnf("no chunk for logical address %d\n", logical)
+			return fuse.EIO
+		}
+		if length > uint64(len(buf)) {
+			length = uint64(len(buf))
+		}
+		if n, err := f.fs.dev.ReadAt(buf[:length], int64(phys)); uint64(n) < length {
+			cliutil.Warnf("read error at physical offset %d: %v\n", phys, err)
+			return fuse.EIO
+		}
+		buf = buf[length:]
+		logical += length
+	}
+	return fuse.OK
 }
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 210197b..84dddcf 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -175,20 +175,7 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	// TODO(cblichmann): HACK HACK HACK!
-	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
-	}
-
-	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
-		return f, fuse.OK
-	}
-	return nil, fuse.ENOENT
+	return newExtentFile(n.fs, n.owner, n.ixInode), fuse.OK
 }
 
 func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
-- 
2.43.0


From 34b2285189ec803958fcff7094a5192487f00b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 17/31] fix: refuse to open files of the mounted view for
 writing

Opening the metadata file with the requested flags could truncate the index.
---
 internal/rescuefs/nodefs.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 84dddcf..09fe8a9 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -75,7 +75,10 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	if flags&fuse.O_ANYWRITE != 0 {
+		return nil, fuse.EROFS
+	}
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
@@ -175,6 +178,9 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
+	if flags&fuse.O_ANYWRITE != 0 {
+		return nil, fuse.EROFS
+	}
 	return newExtentFile(n.fs, n.owner, n.ixInode), fuse.OK
 }
 
-- 
2.43.0


From 12a9092acce2f08340e39dafcc301ab431df0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 18/31] fix: guard the caches of the mounted view against
 concurrent requests

Concurrent first requests on a directory wrote its map of entries at the same
time, which crashes the process, or saw it half filled.
---
 internal/rescuefs/nodefs.go | 43 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 09fe8a9..7bce66f 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,20 +9,17 @@ package rescuefs
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"time"
 
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 
-	"fmt" //DBG!!!
-
 	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
-func init() { fmt.Printf("") } //DBG!!!
-
 func (r *rescueFS) newNode() *basicNode {
 	n := &basicNode{Node: nodefs.NewDefaultNode(), fs: r}
 	now := time.Now()
@@ -91,27 +88,28 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+	mu       sync.Mutex // Guards the following fields
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
 }
 
 func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	return &rescueNode{
-		Node:     nodefs.NewDefaultNode(),
-		fs:       fs,
-		ix:       fs.ix,
-		owner:    owner,
-		ixInode:  inode,
-		dirItems: make(map[string]btrfs.DirItem),
+		Node:    nodefs.NewDefaultNode(),
+		fs:      fs,
+		ix:      fs.ix,
+		owner:   owner,
+		ixInode: inode,
 	}
 }
 
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
-			fmt.Println("No data for", n.owner, n.ixInode) //DBG!!!
 			return fuse.ENOATTR
 		}
 		n.attr = &fuse.Attr{
@@ -133,19 +131,23 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	return fuse.OK
 }
 
-func (n *rescueNode) ensureDirItems() {
-	if len(n.dirItems) > 0 {
-		return
-	}
-	for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
-		n.dirItems[d.Name()] = d
+// ensureDirItems returns the entries of this directory by name. The result is
+// cached and must not be changed.
+func (n *rescueNode) ensureDirItems() map[string]btrfs.DirItem {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	if n.dirItems == nil {
+		n.dirItems = make(map[string]btrfs.DirItem)
+		for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
+			n.dirItems[d.Name()] = d
+		}
 	}
+	return n.dirItems
 }
 
 func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	context *fuse.Context) (*nodefs.Inode, fuse.Status) {
-	n.ensureDirItems()
-	d, ok := n.dirItems[name]
+	d, ok := n.ensureDirItems()[name]
 	if !ok {
 		return nil, fuse.ENOENT
 	}
@@ -164,9 +166,8 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
-	n.ensureDirItems()
 	var s []fuse.DirEntry
-	for _, di := range n.dirItems {
+	for _, di := range n.ensureDirItems() {
 		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
 		if di.IsDir() {
 			entry.Mode = fuse.S_IFDIR
-- 
2.43.0


From 7d332b25390bca42511a167cce83ba44b24635c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 19/31] fix: report the stored type of directory entries in the
 mounted view

Everything but directories was listed as a regular file.
---
 internal/rescuefs/nodefs.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 7bce66f..4700c20 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -164,15 +164,31 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	return ch, node.GetAttr(out, nil, context)
 }
 
+// dirItemMode returns the file type bits for a directory entry.
+func dirItemMode(di btrfs.DirItem) uint32 {
+	switch di.Type() {
+	case btrfs.FtDir:
+		return fuse.S_IFDIR
+	case btrfs.FtSymlink:
+		return fuse.S_IFLNK
+	case btrfs.FtChrdev:
+		return syscall.S_IFCHR
+	case btrfs.FtBlkdev:
+		return syscall.S_IFBLK
+	case btrfs.FtFifo:
+		return fuse.S_IFIFO
+	case btrfs.FtSock:
+		return syscall.S_IFSOCK
+	default:
+		return fuse.S_IFREG
+	}
+}
+
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
 	var s []fuse.DirEntry
 	for _, di := range n.ensureDirItems() {
-		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
-		if di.IsDir() {
-			entry.Mode = fuse.S_IFDIR
-		}
-		s = append(s, entry)
+		s = append(s, fuse.DirEntry{Name: di.Name(), Mode: dirItemMode(di)})
 	}
 	return s, fuse.OK
 }
-- 
2.43.0


From 21fca02955904c7342cf6bf0c2ab7570a2823c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 20/31] fix: report distinct inode numbers for the objects of
 all subvolumes

Every subvolume has its own inode numbers, starting with 256 for its root.
---
 internal/rescuefs/nodefs.go   | 29 ++++++++++++++++++++++++++++-
 internal/rescuefs/rescuefs.go |  5 ++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 4700c20..b8e08f5 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -28,6 +28,32 @@ func (r *rescueFS) newNode() *basicNode {
 	return n
 }
 
+// Inode number of the metadata file. Not in use by BTRFS.
+const metadataIno = 2
+
+// inoMap assigns inode numbers. Each subvolume has its own inode numbers, but
+// they need to be unique within the mounted view.
+type inoMap struct {
+	mu   sync.Mutex
+	inos map[[2]uint64]uint64
+}
+
+func (m *inoMap) get(owner, inode uint64) uint64 {
+	const firstAssigned = uint64(1) << 63
+	if owner == btrfs.FSTreeObjectID && inode < firstAssigned {
+		return inode
+	}
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	key := [2]uint64{owner, inode}
+	ino, ok := m.inos[key]
+	if !ok {
+		ino = firstAssigned + uint64(len(m.inos))
+		m.inos[key] = ino
+	}
+	return ino
+}
+
 func (r *rescueFS) OnMount(c *nodefs.FileSystemConnector) {
 	i := r.root.Inode()
 	i.NewChild("rescue", true, newRescueNode(r, btrfs.FSTreeObjectID,
@@ -67,6 +93,7 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 	n.info.FromStat(fi)
 	n.info.Mode = n.info.Mode&0555 | fuse.S_IFREG
+	n.info.Ino = metadataIno
 	return n
 }
 
@@ -113,7 +140,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 			return fuse.ENOATTR
 		}
 		n.attr = &fuse.Attr{
-			Ino:       n.ixInode,
+			Ino:       n.fs.inos.get(n.owner, n.ixInode),
 			Size:      ii.Size(),
 			Atime:     uint64(ii.Atime().Unix()),
 			Mtime:     uint64(ii.Mtime().Unix()),
diff --git a/internal/rescuefs/rescuefs.go b/internal/rescuefs/rescuefs.go
index 90899b6..fefb5f7 100644
--- a/internal/rescuefs/rescuefs.go
+++ b/internal/rescuefs/rescuefs.go
@@ -22,12 +22,15 @@ type rescueFS struct {
 
 	dev io.ReaderAt
 
+	inos *inoMap
+
 	root   *basicNode
 	server *fuse.Server
 }
 
 func New(metadata string, ix *index.Index, dev io.ReaderAt) rescueFS {
-	r := rescueFS{metadata: metadata, ix: ix, dev: dev}
+	r := rescueFS{metadata: metadata, ix: ix, dev: dev,
+		inos: &inoMap{inos: make(map[[2]uint64]uint64)}}
 	r.root = r.newNode()
 	return r
 }
-- 
2.43.0


From 5284c033c9cb52ce1919b2a7499437d4fc44a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 21/31] fix: sample only blocks inside the device, and no more
 than there are

Offsets after the superblock copies were beyond the end of devices with little
room there, fewer samples than superblock blocks crashed, and more samples than
blocks never finished.
---
 internal/identify/identify.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..4cb41c0 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -30,31 +30,27 @@ func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
 	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
-	}
-	if devSize >= btrfs.SuperInfoOffset3 {
-		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+	// Blocks in the vicinity of all superblock copies that the device has room
+	// for
+	for _, superInfo := range []uint64{btrfs.SuperInfoOffset,
+		btrfs.SuperInfoOffset2, btrfs.SuperInfoOffset3, btrfs.SuperInfoOffset4} {
+		for i := uint64(0); i < 100; i++ {
+			if o := superInfo + i*blockSize; o+blockSize <= devSize {
+				sampleSet[o] = true
 			}
 		}
 	}
-	numBlocks := int64(devSize / blockSize)
+	numBlocks := devSize / blockSize
+	if numSamples > numBlocks {
+		numSamples = numBlocks
+	}
 	for uint64(len(sampleSet)) < numSamples {
-		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
+		sampleSet[uint64(rand.Int63n(int64(numBlocks)))*blockSize] = true
 	}
 	// Sort samples vector to access device in one direction only
-	samples := make(Uint64Array, numSamples)
-	i := 0
+	samples := make(Uint64Array, 0, len(sampleSet))
 	for o := range sampleSet {
-		samples[i] = o
-		i++
+		samples = append(samples, o)
 	}
 	samples.Sort()
 	return samples
-- 
2.43.0


From 8c5c3c2c11e312859d740370a2ca6f6100be88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 22/31] fix: guess the block size from the non-empty leaves
 only

The first leaf of an id was never summed up but all leaves were counted, so
that the guess was too small and depended on the order of reading.
---
 internal/identify/collector.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 3026fa8..2eda14b 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -40,6 +40,7 @@ func (a fsEntries) Sort()         { sort.Sort(a) }
 
 type histEntry struct {
 	Count        uint
+	NonEmpty     uint // Number of non-empty leaves
 	BlockSizeSum uint64
 }
 
@@ -66,13 +67,15 @@ func (c *FSIDCollecter) CollectBlock(block []byte) {
 	if !ok {
 		entry = &histEntry{}
 		c.hist[fsid] = entry
-	} else if h.NrItems() > 0 {
+	}
+	if h.NrItems() > 0 {
 		item := btrfs.Item(block[btrfs.HeaderLen:])
 		// Since item headers and their data grow towards each other, the
 		// first item's offset will be the largest. In order to guess the
 		// actual block size, sum offsets for all entries belonging to an
 		// FSID to compute the average later.
 		entry.BlockSizeSum += uint64(item.Offset())
+		entry.NonEmpty++
 	}
 	entry.Count++
 }
@@ -84,9 +87,12 @@ func (c *FSIDCollecter) Entries(minOccurrence uint) []FSEntry {
 	for uuid, entry := range c.hist {
 		if entry.Count >= minOccurrence {
 			// Compute average and round to nearest 4KiB.
-			guess := uint32(float64(entry.BlockSizeSum)/float64(entry.Count)+
-				btrfs.X86RegularPageSize) / btrfs.X86RegularPageSize *
-				btrfs.X86RegularPageSize
+			average := uint64(0)
+			if entry.NonEmpty > 0 {
+				average = entry.BlockSizeSum / uint64(entry.NonEmpty)
+			}
+			guess := uint32((average + btrfs.X86RegularPageSize) /
+				btrfs.X86RegularPageSize * btrfs.X86RegularPageSize)
 			occ = append(occ, FSEntry{uuid, entry.Count,
 				coding.ShannonEntropy(uuid[:]), guess})
 		}
-- 
2.43.0


From 3d1bffefbeba70b9060faada3c9c056f3f89dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 23/31] fix: keep objects with reserved inode numbers apart
 from the mount's own

---
 internal/rescuefs/nodefs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index b8e08f5..e38782d 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -40,7 +40,8 @@ type inoMap struct {
 
 func (m *inoMap) get(owner, inode uint64) uint64 {
 	const firstAssigned = uint64(1) << 63
-	if owner == btrfs.FSTreeObjectID && inode < firstAssigned {
+	if owner == btrfs.FSTreeObjectID && inode >= btrfs.FirstFreeObjectID &&
+		inode < firstAssigned {
 		return inode
 	}
 	m.mu.Lock()
-- 
2.43.0


From 5504330ac0a19ee045f1f7d196a532fa4a6f5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 24/31] fix: leave out names from the mounted view that make
 directories unlistable

---
 internal/rescuefs/nodefs.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index e38782d..b8fac7e 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,6 +9,7 @@ package rescuefs
 
 import (
 	"os"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -167,7 +168,12 @@ func (n *rescueNode) ensureDirItems() map[string]btrfs.DirItem {
 	if n.dirItems == nil {
 		n.dirItems = make(map[string]btrfs.DirItem)
 		for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
-			n.dirItems[d.Name()] = d
+			// The kernel refuses to list directories with impossible names
+			name := d.Name()
+			if name == "." || name == ".." || strings.ContainsAny(name, "/\x00") {
+				continue
+			}
+			n.dirItems[name] = d
 		}
 	}
 	return n.dirItems
-- 
2.43.0


From 037b77f448a299f5c8b8f5dd2a6a8b47da4dbb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 25/31] fix: let the inode decide what is a directory in the
 mounted view

A directory whose entry has another type could be listed, but its entries
could not be looked up.
---
 internal/rescuefs/nodefs.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index b8fac7e..1911ba1 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -194,8 +194,13 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 		inode = btrfs.FirstFreeObjectID
 	}
 	node := newRescueNode(n.fs, owner, inode)
-	ch := n.Inode().NewChild(name, d.IsDir(), node)
-	return ch, node.GetAttr(out, nil, context)
+	code := node.GetAttr(out, nil, context)
+	isDir := d.IsDir()
+	if code.Ok() {
+		// The kernel goes by the mode, whatever the type of the entry
+		isDir = out.IsDir()
+	}
+	return n.Inode().NewChild(name, isDir, node), code
 }
 
 // dirItemMode returns the file type bits for a directory entry.
-- 
2.43.0


From 7d260df4c8fd015a6aec0d0e7c77952b3556e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 26/31] fix: refuse to scan an image into itself

An image that happens to contain a metadata index, such as an index given
twice by mistake, was written to.
---
 cmd/recon.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index bd4585d..fb7cca1 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -55,6 +55,14 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 	cliutil.ReportError(err)
 	defer f.Close()
 
+	// Never write to the image, even if it looks like a metadata file
+	if fi, err := f.Stat(); err == nil {
+		if mi, err := os.Stat(app.Global.Metadata); err == nil &&
+			os.SameFile(fi, mi) {
+			cliutil.Fatalf("metadata file is the image\n")
+		}
+	}
+
 	bs := uint64(app.Global.BlockSize)
 
 	devSize, err := btrfs.CheckDeviceSize(f, bs)
-- 
2.43.0


From 681bff521149e355db4ab6030e7a1f25b192528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 27/31] fix: list names as they are, whatever bytes they
 contain

ls passed names through the tabwriter, which drops bytes 0xff and takes
tabs, vertical tabs and form feeds for column and line breaks.
---
 cmd/ls.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 2b939a5..f234b73 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -6,11 +6,14 @@
 package cmd
 
 import (
+	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"os"
 	"path"
 	"sort"
+	"strings"
 	"text/tabwriter"
 	"time"
 
@@ -75,10 +78,31 @@ func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 			ii.Nlink(), ii.UID(), ii.GID(), ii.Size(), shortTime(ii.Ctime()))
 	}
 
-	fmt.Fprintf(w, "\t%s\n", di.Name())
+	fmt.Fprint(w, "\t\n")
 	// TODO(cblichmann): Print symlinks
 }
 
+type ownedDirItem struct {
+	owner uint64
+	btrfs.DirItem
+}
+
+func listDirItems(w io.Writer, ix *index.Index, dis []ownedDirItem,
+	showInode bool) {
+	// Names may contain bytes that have a meaning for the tabwriter, so only
+	// the other columns go through it.
+	var columns bytes.Buffer
+	tw := tabwriter.NewWriter(&columns, 1, 4, 1, ' ', 0)
+	for _, di := range dis {
+		listDirItem(tw, ix, di.owner, di.DirItem, showInode)
+	}
+	tw.Flush()
+
+	for i, line := range strings.Split(columns.String(), "\n")[:len(dis)] {
+		fmt.Fprintf(w, "%s%s\n", line, dis[i].Name())
+	}
+}
+
 type dirItemSlice []btrfs.DirItem
 
 func (a dirItemSlice) Len() int { return len(a) }
@@ -100,12 +124,14 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	dis := dirItemSlice(ix.DirEntries(owner, dirID))
 	sort.Sort(dis)
 	todo := dirItemSlice{}
+	list := []ownedDirItem{}
 	for _, di := range dis {
-		listDirItem(w, ix, owner, di, showInode)
+		list = append(list, ownedDirItem{owner, di})
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
+	listDirItems(w, ix, list, showInode)
 
 	for _, di := range todo {
 		subOwner, subDirID := di.Target(owner)
@@ -157,7 +183,9 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	owner := uint64(btrfs.FSTreeObjectID)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 
-	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	w := bufio.NewWriter(os.Stdout)
+	defer w.Flush()
+	var files []ownedDirItem
 	type Todo struct{ owner, dirID uint64 }
 	var todo []Todo
 	for _, p := range args {
@@ -171,19 +199,17 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
-			listDirItem(w, ix, o, di, options.Inode)
+			files = append(files, ownedDirItem{o, di})
 			continue
 		} else {
 			subOwner, subDirID := di.Target(o)
 			todo = append(todo, Todo{subOwner, subDirID})
 		}
 	}
-	w.Flush()
+	listDirItems(w, ix, files, options.Inode)
 
-	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
 		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
 			make(map[[2]uint64]bool))
 	}
-	w.Flush()
 }
-- 
2.43.0


From 85177e8e2ef00e49494429cc802857a9ebd3ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 28/31] fix: block size guesses of almost 4 GiB were reported
 as zero

---
 internal/identify/collector.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 2eda14b..921ccae 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -18,7 +18,7 @@ type FSEntry struct {
 	FSID      uuid.UUID
 	Count     uint
 	Entropy   float64
-	BlockSize uint32
+	BlockSize uint64
 }
 
 type fsEntries []FSEntry
@@ -91,8 +91,8 @@ func (c *FSIDCollecter) Entries(minOccurrence uint) []FSEntry {
 			if entry.NonEmpty > 0 {
 				average = entry.BlockSizeSum / uint64(entry.NonEmpty)
 			}
-			guess := uint32((average + btrfs.X86RegularPageSize) /
-				btrfs.X86RegularPageSize * btrfs.X86RegularPageSize)
+			guess := (average + btrfs.X86RegularPageSize) /
+				btrfs.X86RegularPageSize * btrfs.X86RegularPageSize
 			occ = append(occ, FSEntry{uuid, entry.Count,
 				coding.ShannonEntropy(uuid[:]), guess})
 		}
-- 
2.43.0


From 4dfeb3b2a7104f18531c47ba6a6e1e6e047520c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 29/31] fix: order of filesystem ids found equally often
 changed from run to run

The entropy of an id was summed up in random order, so that its rounding
differed and with it the order of ids of the same entropy.
---
 pkg/coding/entropy.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/coding/entropy.go b/pkg/coding/entropy.go
index 2b9a262..830148e 100644
--- a/pkg/coding/entropy.go
+++ b/pkg/coding/entropy.go
@@ -7,21 +7,24 @@ package coding
 
 import (
 	"math"
+	"sort"
 )
 
 func ShannonEntropy(b []byte) float64 {
-	hist := make(map[byte]uint)
+	// Always sum up in the same order, so that the result is exactly the same
+	// for the same bytes, and for all of their permutations.
+	hist := [256]uint{}
 	for _, v := range b {
 		hist[v]++
 	}
-	p := make(map[byte]float64)
+	sort.Slice(hist[:], func(i, j int) bool { return hist[i] < hist[j] })
 	l := float64(len(b))
-	for v, c := range hist {
-		p[v] = float64(c) / l
-	}
 	e := float64(0)
-	for _, v := range p {
-		e += v * math.Log2(v)
+	for _, c := range hist {
+		if c > 0 {
+			p := float64(c) / l
+			e += p * math.Log2(p)
+		}
 	}
 	return -e
 }
-- 
2.43.0


From 5492c26dc33ed3e8c55b4dc836699f5f26dfdc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 30/31] fix: data of directory entries and attributes of almost
 64 KiB could not be taken

---
 pkg/btrfs/btrfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index c3c8517..2603f8c 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -569,8 +569,8 @@ func (d DirItem) Name() string {
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	o := dirItemName + int(d.NameLen())
+	return string(d[o : o+int(d.DataLen())])
 }
 
 // Entries splits a stored directory item into its entries: names with the same
-- 
2.43.0


From 30ad402a0bcebe79078600a7f89130f1541d6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:20 +0000
Subject: [PATCH 31/31] fix: refuse block sizes that cannot hold an item, or
 that do not fit the index

A block size of 0 crashed recon and identify with a division by zero, other
small ones with slices out of range, after recon had made an index. Absurdly
large ones overflowed the check of the device size.
---
 pkg/btrfs/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/btrfs/util.go b/pkg/btrfs/util.go
index 7a30acb..7b0bba9 100644
--- a/pkg/btrfs/util.go
+++ b/pkg/btrfs/util.go
@@ -8,9 +8,15 @@ package btrfs
 import (
 	"fmt"
 	"io"
+	"math"
 )
 
 func CheckDeviceSize(rs io.ReadSeeker, blockSize uint64) (uint64, error) {
+	// Blocks need to have room for a header and an item at least. The index
+	// stores their size as 32 bits.
+	if blockSize < HeaderLen+ItemLen || blockSize > math.MaxUint32 {
+		return 0, fmt.Errorf("invalid block size: %d", blockSize)
+	}
 	size, err := rs.Seek(0, io.SeekEnd)
 	if err == nil {
 		if uint64(size) < blockSize {
-- 
2.43.0

