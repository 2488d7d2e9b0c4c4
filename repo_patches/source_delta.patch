From ebd5bb1bc862afa263cda5f4d401d98fa3d56bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 01/30] fix: do not keep the handle of a removed empty data
 file cached

acquireLast put the handle of the file it removed back into the file cache.
A later data file with the same number was then written through the mapping
of the unlinked file, so acknowledged values were gone after a restart.
---
 database/files/metric.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..3385236 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -196,8 +196,9 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 		// there exists one.
 		if head == f.Capacity()-1 && m.last > m.first {
 			// since this file is empty and there is an earlier file, we should
-			// remove it.
-			m.opts.fch.releaseFile(path, f)
+			// remove it. the handle must not go back into the cache: it would
+			// be handed out again for a later file with the same path.
+			f.Close()
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From 07b1a59cb08d0f9fd907d623f923e3857e0023a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 02/30] fix: keep reading older files when the newest has
 nothing below the bound

A file whose smallest end is not below the bound was meant to be skipped, but
the whole query stopped and returned none of the older values.
---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 3385236..091fab9 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -361,7 +361,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			if meta.SmallestEnd >= end {
-				return false, nil
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From 208b32b873d2b36d9da00cc4da17beb54b29a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 03/30] fix: reject values larger than a file, and only those,
 before evicting

A value that needed a second file was rejected as too large when the first
file held exactly one record slot, and a value that was really too large
evicted the oldest file and left an empty one before it was rejected.
---
 database/files/metric.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 091fab9..82e0206 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -247,11 +247,14 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// if the value does not even fit in an empty file, then we will not
+		// be able to write it. check before making any room for it.
+		opts := m.opts.fch.opts
+		nr := numRecords(len(data), opts.Size)
+		if nr == 0 {
+			return false, Error.New("unable to compute number of records")
+		}
+		if nr > opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From 891b0c076795b5157c336a091b32c78d0489f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 04/30] fix: evict all files beyond the limit

When removing the oldest file failed once, every later write removed one file
and added one, so the metric stayed above its limit for good.
---
 database/files/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 82e0206..1346758 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -262,7 +262,8 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		// the first number. since it may be in the cache, we need to evict
 		// it from the cache if it is there. bump first once the file is
 		// removed.
-		if m.last-m.first >= m.opts.max && m.opts.max > 0 {
+		// a file that could not be removed earlier is caught up on here.
+		for m.last-m.first >= m.opts.max && m.opts.max > 0 {
 			first_path := m.filenameAt(m.first)
 			m.opts.fch.evictFile(first_path)
 			os.Remove(first_path)
-- 
2.43.0


From 6284e5faaa470d85d4b39ed3a5cc71f634f44110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 05/30] fix: survive a crash in the middle of writing a value

The records of a value were written starting with its beginning. A crash in
between left a beginning without an end that hid the next acknowledged value
from reads and made later writes be rejected, and a torn record at the head
made every later write to the metric fail. Write the beginning last, and skip
records that do not belong to a complete value.
---
 database/files/file_ops.go | 15 +++++++
 database/files/metric.go   | 83 ++++++++++++++++++++++++++++----------
 2 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..721c89d 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -48,3 +48,18 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 		}
 	}
 }
+
+// getLastEnd returns the end of the newest value in the file whose records
+// begin at head. records that cannot be read or that are not the beginning of
+// a value are left over from an interrupted write, and are skipped.
+func getLastEnd(ctx context.Context, f file, head int) (end int64, ok bool) {
+	for ; head < f.Capacity(); head++ {
+		rec, err := f.Record(ctx, head)
+		if err == nil && (rec.kind == recordKind_complete ||
+			rec.kind == recordKind_begin) {
+
+			return rec.end, true
+		}
+	}
+	return 0, false
+}
diff --git a/database/files/metric.go b/database/files/metric.go
index 1346758..0eb4035 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -212,6 +212,33 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 	return file{}, 0, Error.New("unable to acquire last file")
 }
 
+// lastEnd returns the end of the newest value stored in the metric, where f
+// is the last file and head its first valid record.
+func (m *metric) lastEnd(ctx context.Context, f file, head int) (
+	end int64, ok bool, err error) {
+
+	end, ok = getLastEnd(ctx, f, head)
+
+	// if nothing in the last file is readable, look at the earlier ones.
+	for num := m.last - 1; num >= m.first && !ok; num-- {
+		path := m.filenameAt(num)
+		f, err := m.opts.fch.acquireFile(ctx, path, true)
+		if err != nil {
+			return 0, false, err
+		}
+		head, err := getHeadPointer(ctx, f)
+		if err == nil {
+			end, ok = getLastEnd(ctx, f, head+1)
+		}
+		m.opts.fch.releaseFile(path, f)
+		if err != nil {
+			return 0, false, err
+		}
+	}
+
+	return end, ok, nil
+}
+
 // Write stores the data in the metric if there is room and the data is
 // chronologically later than the last data stored. additionally, it cleans
 // any files older than max if it had to allocate a new file. it returns if
@@ -229,15 +256,13 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// point head at the first valid record (or out of bounds at the capacity)
 	head++
 
-	// if the last file has a record, ensure monotonicity with it.
-	if f.HasRecord(ctx, head) {
-		last_rec, err := f.Record(ctx, head)
-		if err != nil {
-			return false, err
-		}
-		if last_rec.end >= end {
-			return false, nil
-		}
+	// if there is a value stored, ensure monotonicity with it.
+	last_end, ok, err := m.lastEnd(ctx, f, head)
+	if err != nil {
+		return false, err
+	}
+	if ok && last_end >= end {
+		return false, nil
 	}
 
 	// ensure we have capacity to write the value in the last file and create
@@ -299,16 +324,24 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	head -= nr
 	new_head := head - 1
 
-	// write the records into the file
+	// write the records into the file. the record that begins the value is
+	// written last, next to the older values first, so that if we are
+	// interrupted, the value is either complete or has no beginning and is
+	// skipped.
+	recs := make([]record, 0, nr)
 	err = iterateRecords(start, end, data, f.Size(),
 		func(rec record) error {
-			err := f.SetRecord(ctx, head, rec)
-			head++
-			return err
+			recs = append(recs, rec)
+			return nil
 		})
 	if err != nil {
 		return false, err
 	}
+	for i := len(recs) - 1; i >= 0; i-- {
+		if err := f.SetRecord(ctx, head+i, recs[i]); err != nil {
+			return false, err
+		}
+	}
 
 	// update the metadata to point at the new head, and update the start and
 	// end values. this helps for searching and bounds checking.
@@ -439,26 +472,25 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 
 				// read records and append them to the buf while we're getting
 				// continues.
+				start, end := rec.start, rec.end
 				for {
 					rec, err := f.Record(ctx, head)
-					head++
 					if err != nil {
 						// drop any records we have with errors
+						head++
 						external.Errorw("error reading record",
 							"err", err,
 						)
 						continue new_record
 					}
 
-					buf = append(buf, rec.data...)
-
-					if rec.kind == recordKind_continue {
-						continue
-					}
+					// if we see anything other than a continue or an end of
+					// the same value at this point, it's definitely a problem.
+					// leave the record to be read as part of its own value.
+					if rec.kind != recordKind_continue &&
+						rec.kind != recordKind_end ||
+						rec.start != start || rec.end != end {
 
-					// if we see anything other than an end at this point, it's
-					// definitely a problem.
-					if rec.kind != recordKind_end {
 						// drop any records we have with errors
 						external.Errorw("invalid record kind",
 							"kind", rec.kind,
@@ -467,6 +499,13 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 						continue new_record
 					}
 
+					head++
+					buf = append(buf, rec.data...)
+
+					if rec.kind == recordKind_continue {
+						continue
+					}
+
 					// ok we're done with that value, callback and move on to
 					// the next value.
 					ok, err = cb(ctx, rec.start, rec.end, buf)
-- 
2.43.0


From c316b8e305c31cc08927e73947cc0856d4e7e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 06/30] fix: unmap files that cannot be opened and report
 failing unmaps

Every attempt to open a data file with unreadable metadata leaked a mapping,
and Munmap and Msync returned no error when they failed.
---
 database/files/file.go                 | 3 +++
 database/files/internal/system/mmap.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..1c010f1 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -68,6 +68,7 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
@@ -110,10 +111,12 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
 	if meta.Size_ < recordHeaderSize {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
diff --git a/database/files/internal/system/mmap.go b/database/files/internal/system/mmap.go
index 4cf98ac..04c8984 100644
--- a/database/files/internal/system/mmap.go
+++ b/database/files/internal/system/mmap.go
@@ -24,7 +24,7 @@ func Mmap(fd int, length int, prot int, flags int) (data uintptr, err error) {
 func Munmap(data uintptr, length int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MUNMAP, data, uintptr(length), 0)
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
@@ -33,7 +33,7 @@ func Msync(data uintptr, length int, flags int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MSYNC, data, uintptr(length),
 		uintptr(flags))
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
-- 
2.43.0


From e45a72ff96e252a0534d82e61a5e188889ebb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 07/30] fix: create data files atomically

A crash, a full disk or another failure while a data file was created left an
empty or partial file behind, and every later read or write of the metric
failed because that file could not be opened.
---
 database/files/file.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 1c010f1..1c9776a 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -32,11 +32,19 @@ type file struct {
 func createFile(ctx context.Context, path string, size, cap int) (
 	f file, err error) {
 
-	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// the file is made under a temporary name so that we never leave a partial
+	// file behind if we fail or are interrupted.
+	tmp := path + ".tmp"
+	fh, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return file{}, Error.Wrap(err)
 	}
 	defer fh.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(tmp)
+		}
+	}()
 	fd := int(fh.Fd())
 
 	// these overflow checks might be too restrictive, but i think it will
@@ -72,6 +80,11 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		return file{}, err
 	}
 
+	if err := os.Rename(tmp, path); err != nil {
+		system.Munmap(data, len)
+		return file{}, Error.Wrap(err)
+	}
+
 	return file{
 		data: data,
 		len:  len,
-- 
2.43.0


From 1fa774bae34423ee20c35bb9177ce5bc56c0eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 08/30] fix: repair metadata that a crash left half written

The metadata of a data file is updated in place. A crash in the middle of that
left it with a bad checksum, and every later read or write of the metric
failed. It is only a summary of the records, so compute it again.
---
 database/files/file.go       | 17 ++++++++++++++
 database/files/file_cache.go |  2 +-
 database/files/file_ops.go   | 45 +++++++++++++++++++++++++++++++++++-
 3 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index 1c9776a..8ddb55c 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -96,6 +96,15 @@ func createFile(ctx context.Context, path string, size, cap int) (
 
 // openFile returns a file for the given path.
 func openFile(ctx context.Context, path string) (f file, err error) {
+	return openFileRepair(ctx, path, 0)
+}
+
+// openFileRepair returns a file for the given path. if the metadata of the
+// file is damaged, as it is by a crash while it was written, then it is made
+// again out of the records in the file, if they have the given record size.
+func openFileRepair(ctx context.Context, path string, repair_size int) (
+	f file, err error) {
+
 	fh, err := os.OpenFile(path, os.O_RDWR, 0)
 	if err != nil {
 		return f, Error.Wrap(err)
@@ -123,6 +132,14 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// read the metadata record to determine the size of the records in this
 	// file.
 	meta, err := readMetadata(slice(data, len))
+	if err != nil && repair_size > 0 {
+		meta, err = repairMetadata(ctx, file{
+			data: data,
+			len:  len,
+			cap:  len/repair_size - 1,
+			size: repair_size,
+		}, err)
+	}
 	if err != nil {
 		system.Munmap(data, len)
 		return f, err
diff --git a/database/files/file_cache.go b/database/files/file_cache.go
index b649118..e942313 100644
--- a/database/files/file_cache.go
+++ b/database/files/file_cache.go
@@ -81,7 +81,7 @@ func (fch *fileCache) acquireFile(ctx context.Context, path string,
 	}
 
 	if exists {
-		return openFile(ctx, path)
+		return openFileRepair(ctx, path, fch.opts.Size)
 	}
 	return createFile(ctx, path, fch.opts.Size, fch.opts.Cap)
 }
diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 721c89d..0bdff7a 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -2,7 +2,11 @@
 
 package files
 
-import "context"
+import (
+	"context"
+
+	"github.com/vivint/rothko/database/files/internal/meta"
+)
 
 // getHeadPointer returns the index of the head pointer of the file, which is
 // where the next write would go, using the metadata in the file as a hint.
@@ -63,3 +67,42 @@ func getLastEnd(ctx context.Context, f file, head int) (end int64, ok bool) {
 	}
 	return 0, false
 }
+
+// repairMetadata stores new metadata for the file computed from the records
+// in it. it returns the cause if it has records but none are readable, as then
+// the size of the records is likely some other one.
+func repairMetadata(ctx context.Context, f file, cause error) (
+	m meta.Metadata, err error) {
+
+	if f.size < recordHeaderSize || f.cap <= 0 || f.len%f.size != 0 {
+		return m, cause
+	}
+
+	// the records start somewhere in the file, and continue until the end.
+	head := 0
+	for head < f.cap && !f.HasRecord(ctx, head) {
+		head++
+	}
+
+	m.Size_ = f.size
+	m.Head = head - 1
+
+	found := head == f.cap
+	for n := head; n < f.cap; n++ {
+		rec, err := f.Record(ctx, n)
+		if err != nil {
+			continue
+		}
+		if !found {
+			m.End = rec.end
+			found = true
+		}
+		m.Start = rec.start
+		m.SmallestEnd = rec.end
+	}
+	if !found {
+		return meta.Metadata{}, cause
+	}
+
+	return m, f.SetMetadata(ctx, m)
+}
-- 
2.43.0


From acc256f3dc2df2364501a592f3f7bfa0b8f16646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 09/30] fix: do not skip the first value of a file after a
 crash

A crash after the first value of a file was stored, but before the metadata
was, left the smallest end unset. The next write set it to its own end, and
queries bounded by that end skipped the file with the first value in it.
---
 database/files/metric.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 0eb4035..4827289 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -319,6 +319,9 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		}
 	}
 
+	// check if this is the first value in the file, for the metadata below.
+	first := head == f.Capacity()
+
 	// we are gauranteed that head >= nr, so subtract it to copy in the
 	// records.
 	head -= nr
@@ -354,7 +357,9 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	if meta.Start == 0 {
 		meta.Start = start
 	}
-	if meta.SmallestEnd == 0 || end < meta.SmallestEnd {
+	// if we were interrupted before setting it for the first value, leave it
+	// unset, as this end is larger than that of the first value.
+	if first || meta.SmallestEnd != 0 && end < meta.SmallestEnd {
 		meta.SmallestEnd = end
 	}
 
@@ -397,7 +402,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 			if err != nil {
 				return false, err
 			}
-			if meta.SmallestEnd >= end {
+			if meta.SmallestEnd != 0 && meta.SmallestEnd >= end {
 				return true, nil
 			}
 
-- 
2.43.0


From dede00976a5840982a07a3c26cc510adfd83fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 10/30] fix: do not create a data file when reading a metric
 that has none

Reading a metric whose directory exists only because it is a prefix of other
metrics created an empty data file, and the metric was listed from then on.
---
 database/files/metric.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 4827289..314d092 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -138,7 +138,9 @@ func newMetric(ctx context.Context, opts metricOptions) (*metric, error) {
 	// if we didn't set the first, create an empty file at 1. this simplifies
 	// the logic because we can from now on assume that at least one possibly
 	// empty file exists.
-	if !first_set {
+	if !first_set && opts.ro {
+		first, last = 1, 0
+	} else if !first_set {
 		path := fb.metricFilenameAt(dir, 1)
 		f, err := opts.fch.acquireFile(ctx, path, false)
 		if err != nil {
-- 
2.43.0


From da98c54edc7fccc3f780623b3e47142ccc5e825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 11/30] fix: never lose a metric name between concurrent
 listings

A listing cleared the set of names of a worker before it stored the merged
set, so another listing in between did not see the names of acknowledged
writes. When the readonly set was empty it was also changed in place while
others iterated over it.
---
 database/files/db_read.go | 73 ++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 43 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..8baf540 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -53,51 +53,48 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 func (db *DB) Metrics(ctx context.Context,
 	cb func(name string) (bool, error)) (err error) {
 
+	// merge in whatever the workers have written since the last call.
+	names := db.mergeNames()
+
+	// yay do callbacks
+	names.Iter(func(name string) (ok bool) {
+		ok, err = cb(name)
+		return ok && err == nil
+	})
+	return err
+}
+
+// mergeNames moves the names of the metrics the workers have written into the
+// readonly set of names and returns it. the whole merge happens under the
+// names_mu mutex, so that no name is ever missing from both places for anyone
+// else calling this.
+func (db *DB) mergeNames() *sset.Set {
+	db.names_mu.Lock()
+	defer db.names_mu.Unlock()
+
 	// load up the readonly names value
 	names, ok := db.names.Load().(*sset.Set)
 	if !ok {
 		names = sset.New(0)
 	}
 
-	// merge the worker sets in if we have a flag for it
 	copied := false
-	locked := false
-	for i, names_w := range db.names_w {
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
-		db.names_w_mu[i].Unlock()
 
 		// skip if we don't need to merge it in
-		if len_names_w == 0 {
-			continue
-		}
-
-		// lock the populating mutex if required
-		if !locked {
-			db.names_mu.Lock()
-			locked = true
-		}
-
-		// lock the worker map again. we drop the worker mutex to avoid
-		// deadlocks while taking the db.names_mu.
-		db.names_w_mu[i].Lock()
-
-		// lazily copy the names map to ensure it is readonly
-		// we reload the names map here after we have the mutex in case
-		// some concurrent Metrics call has updated the atomic.Value
-		if !copied {
-			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
-				names = new_names.Copy()
+		if db.names_w[i].Len() > 0 {
+			// lazily copy the names to ensure it is readonly
+			if !copied {
+				names = names.Copy()
+				copied = true
 			}
-			copied = true
-		}
 
-		// merge the worker map in
-		names.Merge(names_w)
+			// merge the worker set in and clear it out
+			names.Merge(db.names_w[i])
+			db.names_w[i] = sset.New(0)
+		}
 
-		// clear out the worker map
-		db.names_w[i] = sset.New(0)
 		db.names_w_mu[i].Unlock()
 	}
 
@@ -106,17 +103,7 @@ func (db *DB) Metrics(ctx context.Context,
 		db.names.Store(names)
 	}
 
-	// if we locked, we can unlock now as we're done populating and storing
-	if locked {
-		db.names_mu.Unlock()
-	}
-
-	// yay do callbacks
-	names.Iter(func(name string) (ok bool) {
-		ok, err = cb(name)
-		return ok && err == nil
-	})
-	return err
+	return names
 }
 
 // PopulateMetrics walks the directory tree of the metrics recreating the
-- 
2.43.0


From 77a8f4853887e6f8cb9fefd9fe40312c52c67a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 12/30] fix: keep metric names added while the directory is
 scanned

The set of names found by a scan replaced the current one, which lost the
names of metrics first written, and already listed, during the scan.
---
 database/files/db_read.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 8baf540..dba4709 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -109,6 +109,12 @@ func (db *DB) mergeNames() *sset.Set {
 // PopulateMetrics walks the directory tree of the metrics recreating the
 // in-memory cache of metric names. It should be called periodically.
 func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
+	// keep track of what names were known before walking.
+	before, ok := db.names.Load().(*sset.Set)
+	if !ok {
+		before = sset.New(0)
+	}
+
 	dp := newDBPopulator(db.dir)
 	switch err := dp.populate(ctx); {
 	case err == context.Canceled:
@@ -118,7 +124,17 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 	}
 
 	// all stores to the names map have to be done under the names_mu mutex.
+	// keep the names that were added while walking, as we may have missed
+	// their directories.
 	db.names_mu.Lock()
+	if names, ok := db.names.Load().(*sset.Set); ok {
+		names.Iter(func(name string) bool {
+			if !before.Has(name) {
+				dp.out.Add(name)
+			}
+			return true
+		})
+	}
 	db.names.Store(dp.out)
 	db.names_mu.Unlock()
 
-- 
2.43.0


From b9cb79f6a655188930990ad9705431404235f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 13/30] fix: scan the directory again when the scan at start-up
 failed

When the scan failed, say because there were no descriptors left, listings
stayed without the metrics stored before the start for good.
---
 database/files/db.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/database/files/db.go b/database/files/db.go
index c438587..e69cca6 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -211,17 +211,27 @@ func (db *DB) Run(ctx context.Context) error {
 		external.Infow("caching metric names")
 
 		n := time.Now()
-		err := db.PopulateMetrics(ctx)
-
-		external.Infow("cached metric names",
-			"duration", time.Since(n),
-		)
-		if err != nil {
+		for {
+			err := db.PopulateMetrics(ctx)
+			if err == nil {
+				break
+			}
 			external.Errorw("caching metric names",
 				"error", err.Error(),
 			)
+
+			// try again later so that the names do not stay incomplete.
+			select {
+			case <-time.After(time.Second):
+			case <-ctx.Done():
+				return nil
+			}
 		}
 
+		external.Infow("cached metric names",
+			"duration", time.Since(n),
+		)
+
 		<-ctx.Done()
 		return nil
 	})
-- 
2.43.0


From 209b94bc388dd5d7a5e2802adbb7ed73a5412359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 14/30] fix: stop evicting at a file that cannot be removed

---
 database/files/metric.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 314d092..00abcb9 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -293,7 +293,14 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		for m.last-m.first >= m.opts.max && m.opts.max > 0 {
 			first_path := m.filenameAt(m.first)
 			m.opts.fch.evictFile(first_path)
-			os.Remove(first_path)
+			if err := os.Remove(first_path); err != nil && !os.IsNotExist(err) {
+				// keep it, and do not remove any later file: reads expect no
+				// holes in the sequence of files.
+				external.Errorw("error removing file",
+					"err", err,
+				)
+				break
+			}
 			m.first++
 		}
 
-- 
2.43.0


From 3bd5edf84dbe5cc4e4de9a3977aca63b10472ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 15/30] fix: survive distributions that can not be created and
 metrics without values

Observe kept the mutex locked when the distribution could not be created, and
Finish used the missing distribution, also of a metric that was only just
being added.
---
 data/agg.go    | 12 ++++++++----
 data/writer.go |  8 ++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..da31d5e 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -37,11 +37,11 @@ func (a *agg) Observe(val float64, id []byte) {
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
 		dist, err := a.params.New()
-		if err == nil {
-			a.dist = dist
-		} else {
+		if err != nil {
+			a.mu.Unlock()
 			return
 		}
+		a.dist = dist
 	}
 	a.dist.Observe(val)
 
@@ -78,13 +78,17 @@ func (a *agg) Observe(val float64, id []byte) {
 }
 
 // Finish returns the aggregated record, using the buf to marshal the data
-// and returning the buf. Mutating the returned buf invalidates the record.
+// and returning the buf. Mutating the returned buf invalidates the record. If
+// no values were observed, the record has no observations and no distribution.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 	a.mu.Lock()
 	out := a.rec
 	a.mu.Unlock()
 
 	out.EndTime = now.In(time.UTC).UnixNano()
+	if a.dist == nil {
+		return buf, out
+	}
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
 	out.Distribution = buf
diff --git a/data/writer.go b/data/writer.go
index 180cd4d..c78c264 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,10 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			// nothing was observed yet, or it could not be.
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +142,10 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			// nothing was observed yet, or it could not be.
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From d4000c2527cb7f134dca99a1d82524bb3b38df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 16/30] fix: keep records consistent while values are added
 concurrently

The minimum and maximum were updated after leaving the critical section that
counted the value, based on what was seen inside of it, so concurrent values
could overwrite each other's extremes, and Finish read the distribution without
the mutex.
---
 data/agg.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index da31d5e..ffea381 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -33,47 +33,36 @@ func newAgg(params dist.Params, now time.Time) *agg {
 // if it used.
 func (a *agg) Observe(val float64, id []byte) {
 	a.mu.Lock()
+	defer a.mu.Unlock()
 
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
 		dist, err := a.params.New()
 		if err != nil {
-			a.mu.Unlock()
 			return
 		}
 		a.dist = dist
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
-	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
+	// everything has to be updated in the same critical section so that
+	// Finish always sees a consistent record.
+	first := a.rec.Observations == 0
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
-	if obs == 0 || val < min || val > max {
-
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
+	if min, max := first || val < a.rec.Min, first || val > a.rec.Max; min || max {
 		var id_copy []byte
 		if id != nil {
 			id_copy = append(id_copy, id...)
 		}
-
-		a.mu.Lock()
-		if obs == 0 || val < a.rec.Min {
+		if min {
 			a.rec.Min = val
 			a.rec.MinId = id_copy
 		}
-		if obs == 0 || val > a.rec.Max {
+		if max {
 			a.rec.Max = val
 			a.rec.MaxId = id_copy
 		}
-		a.mu.Unlock()
 	}
 }
 
@@ -82,9 +71,9 @@ func (a *agg) Observe(val float64, id []byte) {
 // no values were observed, the record has no observations and no distribution.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
 	if a.dist == nil {
 		return buf, out
-- 
2.43.0


From 3984943b85661df5698e31cbdf9b05042ad99e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 17/30] fix: do not start a dump after the dumper was cancelled

---
 dump/dump.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dump/dump.go b/dump/dump.go
index 022128a..2f89ffc 100644
--- a/dump/dump.go
+++ b/dump/dump.go
@@ -60,6 +60,14 @@ func (d *Dumper) Run(ctx context.Context, w *data.Writer) (err error) {
 			return nil
 
 		case <-ticker.C:
+			// a tick and the cancellation may both be ready, in which case
+			// the select picks either.
+			select {
+			case <-done:
+				return nil
+			default:
+			}
+
 			external.Infow("performing dump")
 			d.Dump(context.Background(), w)
 		}
-- 
2.43.0


From 6bdaaaba414343461c5fe076d43b2077646b5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 18/30] fix: answer render and query requests whose parameters
 can not be served

A negative result count, sample count, padding or compression, a width below
100 pixels or a duration with fewer nanoseconds than pixels made the handler
panic, so the client got no response at all. Report them as errors.
---
 api/query/search.go | 12 +++++++-----
 api/server.go       | 16 ++++++++++++++++
 draw/graph/graph.go | 12 +++++++++++-
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/api/query/search.go b/api/query/search.go
index 8e2416d..0d0cd39 100644
--- a/api/query/search.go
+++ b/api/query/search.go
@@ -8,8 +8,9 @@ import (
 
 // Search represents a metric search.
 type Search struct {
-	specs   []spec
-	matched []string
+	specs    []spec
+	matched  []string
+	capacity int
 }
 
 // New constructs a metric searcher from the query string.
@@ -20,8 +21,9 @@ func New(query string, capacity int) *Search {
 		specs[i] = newSpec(part)
 	}
 	return &Search{
-		specs:   specs,
-		matched: make([]string, 0, capacity),
+		specs:    specs,
+		matched:  []string{},
+		capacity: capacity,
 	}
 }
 
@@ -37,7 +39,7 @@ func (s *Search) Match(metric string) bool {
 
 // Add is meant to be passed to a disk.Metrics call.
 func (s *Search) Add(name string) (bool, error) {
-	if len(s.matched) == cap(s.matched) {
+	if len(s.matched) >= s.capacity {
 		return false, nil
 	}
 	if !s.Match(name) {
diff --git a/api/server.go b/api/server.go
index 29c63b1..626081a 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,6 +27,9 @@ import (
 	"github.com/zeebo/errs"
 )
 
+// maxCompression is the largest compression allowed for merging.
+const maxCompression = 1e5
+
 // Options for the server.
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
@@ -166,6 +169,16 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	compression := getFloat64(req.FormValue("compression"), 5)
 	stop_before := now - dur.Nanoseconds()
 
+	if samples <= 0 {
+		return errBadRequest.New("samples must be positive")
+	}
+	if padding < 0 {
+		return errBadRequest.New("padding must not be negative")
+	}
+	if !(compression >= 0 && compression <= maxCompression) {
+		return errBadRequest.New("compression out of range")
+	}
+
 	// set up some state for the query
 	var measured graph.Measured
 	var earliest []byte
@@ -209,6 +222,9 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 				if !ok {
 					return false, nil
 				}
+				if dur.Nanoseconds() < int64(measured.Width) {
+					return false, errBadRequest.New("duration too short")
+				}
 				merger.SetWidth(measured.Width)
 			}
 
diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..9f3353e 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -5,6 +5,7 @@ package graph
 import (
 	"context"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/vivint/rothko/dist"
@@ -157,6 +158,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth <= 0 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
@@ -169,7 +173,10 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunk := opts.Duration
+	if opts.Width > 100 {
+		chunk /= time.Duration(opts.Width / 100)
+	}
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
@@ -187,6 +194,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 			Position: 1 - float64(opts.Now-x)/float64(opts.Duration),
 			Text:     time.Unix(0, x).Format("1/2 @ 15:04"),
 		})
+		if x < math.MinInt64+natural.Nanoseconds() {
+			break
+		}
 		x -= natural.Nanoseconds()
 	}
 
-- 
2.43.0


From 4b1e289d3b186423e0238e7db2dd4ddd61aff59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 19/30] fix: render records without a merged count or that
 cover no time

A stored record may carry no merged count (older versions wrote none), and
may start and end at the same instant. Its rate was computed as +Inf or NaN,
which can not be encoded, so any window holding such a record was answered
with an error.
---
 merge/merger.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..2338578 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -201,8 +201,20 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
-			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
+
+		// back compat: there may have been records without the merged field.
+		// if merged is 0, that means it actually is 1.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+
+		// a record that covers no time has no rate.
+		dur := time.Duration(mrec.rec.EndTime - mrec.rec.StartTime)
+		if dur > 0 {
+			obs_sec += float64(mrec.rec.Observations) / float64(merged) /
+				dur.Seconds()
+		}
 	}
 	obs_sec /= float64(len(mrecs))
 
-- 
2.43.0


From 48414a9fecb897dea25f9fa7abc9bd1bb10f13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 20/30] fix: count the records of a value by the record size of
 the new file

The check of whether the value fits in an empty file shadowed the number of
records, so that a value was stored with the number of records it needs in
the previous file. These differ when the configured record size was changed.
---
 database/files/metric.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 00abcb9..dbc18f3 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -277,11 +277,11 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		// if the value does not even fit in an empty file, then we will not
 		// be able to write it. check before making any room for it.
 		opts := m.opts.fch.opts
-		nr := numRecords(len(data), opts.Size)
-		if nr == 0 {
+		need := numRecords(len(data), opts.Size)
+		if need == 0 {
 			return false, Error.New("unable to compute number of records")
 		}
-		if nr > opts.Cap {
+		if need > opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From 0980994dd0bfbe5c00e1a7d8d80d02ac97790aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 21/30] fix: keep listening after a temporary failure to accept
 a connection

Running out of descriptors made Accept fail, which ended the graphite
listener and with it the whole server.
---
 listener/graphite/listener.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/listener/graphite/listener.go b/listener/graphite/listener.go
index 9815bfa..e2efdf5 100644
--- a/listener/graphite/listener.go
+++ b/listener/graphite/listener.go
@@ -9,12 +9,17 @@ import (
 	"net"
 	"strconv"
 	"sync"
+	"time"
 
 	"github.com/vivint/rothko/data"
 	"github.com/vivint/rothko/external"
 	"github.com/zeebo/errs"
 )
 
+// acceptRetryDelay is how long to wait before accepting connections again
+// after a temporary failure.
+const acceptRetryDelay = 100 * time.Millisecond
+
 // Listener implements the listener.Listener for the graphite wire protocol.
 type Listener struct {
 	address string
@@ -67,6 +72,19 @@ func handleListener(ctx context.Context, w *data.Writer, lis net.Listener) (
 
 	for {
 		conn, err := lis.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			// a temporary failure, like running out of descriptors, goes
+			// away, so don't stop listening because of it.
+			external.Errorw("graphite accept error",
+				"err", err.Error(),
+			)
+			select {
+			case <-time.After(acceptRetryDelay):
+			case <-ctx.Done():
+				return nil
+			}
+			continue
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From eaccb7842ea0e52be3e303c58db2be825115b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:51 +0000
Subject: [PATCH 22/30] fix: refuse to render graphs too large for the memory

A request with a huge width, height, padding or number of samples got no
response because the handler panicked, or took the process down.
---
 api/server.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/api/server.go b/api/server.go
index 626081a..353f15d 100644
--- a/api/server.go
+++ b/api/server.go
@@ -30,6 +30,14 @@ import (
 // maxCompression is the largest compression allowed for merging.
 const maxCompression = 1e5
 
+// maxSize is the largest width, height and padding allowed for a graph, and
+// maxSamples the largest number of samples for each of its columns, so that
+// a single request is not able to exhaust the memory of the process.
+const (
+	maxSize    = 1 << 13
+	maxSamples = 1 << 12
+)
+
 // Options for the server.
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
@@ -172,9 +180,15 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if samples <= 0 {
 		return errBadRequest.New("samples must be positive")
 	}
+	if samples > maxSamples {
+		return errBadRequest.New("too many samples")
+	}
 	if padding < 0 {
 		return errBadRequest.New("padding must not be negative")
 	}
+	if width > maxSize || height > maxSize || padding > maxSize {
+		return errBadRequest.New("size too large")
+	}
 	if !(compression >= 0 && compression <= maxCompression) {
 		return errBadRequest.New("compression out of range")
 	}
-- 
2.43.0


From d16ce1b16025fdfca2a4fef59739e6d11f2dfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 23/30] fix: registry: run makers without holding the lock, so
 that they can use the registry

---
 registry/registry.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/registry/registry.go b/registry/registry.go
index d29ef21..4135b90 100644
--- a/registry/registry.go
+++ b/registry/registry.go
@@ -37,10 +37,11 @@ func (r *Registry) RegisterListener(name string, maker ListenerMaker) {
 func (r *Registry) NewListener(ctx context.Context, name string,
 	config interface{}) (listener.Listener, error) {
 
+	// the maker runs without the lock so that it can use the registry.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.listeners[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -64,10 +65,11 @@ func (r *Registry) RegisterDatabase(name string, maker DatabaseMaker) {
 func (r *Registry) NewDatabase(ctx context.Context, name string,
 	config interface{}) (database.DB, error) {
 
+	// the maker runs without the lock so that it can use the registry.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.databases[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -92,10 +94,11 @@ func (r *Registry) RegisterDistribution(name string, maker DistributionMaker) {
 func (r *Registry) NewDistribution(ctx context.Context, name string,
 	config interface{}) (dist.Params, error) {
 
+	// the maker runs without the lock so that it can use the registry.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.distributions[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
-- 
2.43.0


From ced3fbabbdb263f3b1402f7ecfd5fb1dcf83d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 24/30] fix: demo: end when the database stops instead of
 waiting for its callback forever

---
 demo.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/demo.go b/demo.go
index c1ddc16..0f9f3cb 100644
--- a/demo.go
+++ b/demo.go
@@ -145,7 +145,8 @@ func addDemoData(ctx context.Context, params dist.Params, db database.DB) (
 		observations = 300            // number of observations per record
 	)
 
-	errors := make(chan error)
+	// buffered because Queue may run the callback before it returns.
+	errors := make(chan error, 1)
 	now := time.Now()
 	start := now.Add(-duration)
 	tdelta := now.Sub(start) / records
@@ -200,8 +201,14 @@ func addDemoData(ctx context.Context, params dist.Params, db database.DB) (
 				if err != nil {
 					return errs.Wrap(err)
 				}
-				if err := <-errors; err != nil {
-					return errs.Wrap(err)
+				select {
+				case err := <-errors:
+					if err != nil {
+						return errs.Wrap(err)
+					}
+				case <-ctx.Done():
+					// the callback may never run if the database stopped.
+					return errs.Wrap(ctx.Err())
 				}
 
 				// step to the next time step and mean
-- 
2.43.0


From 5f92c0d471d34663a9b4c76eba6428bfac51b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 25/30] fix: init: never overwrite a file created meanwhile,
 and leave no partial file behind

---
 init.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/init.go b/init.go
index 2992a9b..2b6bc98 100644
--- a/init.go
+++ b/init.go
@@ -4,7 +4,7 @@ package rothko
 
 import (
 	"fmt"
-	"io/ioutil"
+	"io"
 	"os"
 
 	"github.com/urfave/cli"
@@ -30,20 +30,25 @@ edited, but contains useful defaults.
 			return err
 		}
 
-		_, err := os.Stat(configPath)
-		switch {
-		case os.IsNotExist(err):
-		case err == nil:
+		// O_EXCL so that a file somebody else creates is never overwritten.
+		fh, err := os.OpenFile(
+			configPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
+		if os.IsExist(err) {
 			fmt.Printf("config file already exists. remove %q first\n",
 				configPath)
 			return handled.New("")
-		case err != nil:
+		}
+		if err != nil {
 			return errs.Wrap(err)
 		}
 
-		err = ioutil.WriteFile(
-			configPath, []byte(config.InitialConfig), 0644)
+		_, err = io.WriteString(fh, config.InitialConfig)
+		if cerr := fh.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
+			// do not leave a partial config behind.
+			os.Remove(configPath)
 			return errs.Wrap(err)
 		}
 
-- 
2.43.0


From 967dcc0556fc174fe9a5fcfdf693b0f409b215ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 26/30] fix: tmplfs: answer with an error for a page with a
 broken template instead of panicking

---
 internal/tmplfs/fs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index da37a27..7bfefba 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -49,10 +49,11 @@ func (w *wrapper) Open(name string) (f http.File, err error) {
 		return f, nil
 	}
 
-	// close only if we have any errors
+	// close only if we have any errors. returning an error clears f.
+	opened := f
 	defer func() {
 		if err != nil {
-			f.Close()
+			opened.Close()
 		}
 	}()
 
-- 
2.43.0


From ae56a3007862ec9a0abe0ee88182d8f14a971ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 27/30] fix: tgzfs: list a whole directory when asked for all
 of its entries instead of panicking

---
 internal/tgzfs/file.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/tgzfs/file.go b/internal/tgzfs/file.go
index e3d3be4..8202f33 100644
--- a/internal/tgzfs/file.go
+++ b/internal/tgzfs/file.go
@@ -62,16 +62,19 @@ func (h *fileHandle) Read(p []byte) (int, error) {
 	return h.data.Read(p)
 }
 
-// Readdir reads up to count entries from the listing and returns them.
+// Readdir reads up to count entries from the listing and returns them. If
+// count is not positive, it returns all of the remaining entries.
 func (h *fileHandle) Readdir(count int) (entries []os.FileInfo, err error) {
-	if len(h.listing) == 0 {
+	if count <= 0 {
+		count = len(h.listing)
+	} else if len(h.listing) == 0 {
 		return nil, io.EOF
 	}
 	if len(h.listing) < count {
 		count = len(h.listing)
 	}
 	listing := h.listing[:count]
-	h.listing = h.listing[:len(h.listing)-len(listing)]
+	h.listing = h.listing[count:]
 	return listing, nil
 }
 
-- 
2.43.0


From 81724a39853d09f9ecaef9ee23c3c870bf4df1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 28/30] fix: tgzfs: serve directories that have no entry of
 their own in the tarball instead of panicking

---
 internal/tgzfs/fs.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index b7b3267..f5cf4da 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -20,15 +20,16 @@ import (
 // rootMtime is the mtime for the root file.
 var rootMtime = time.Now()
 
-// rootFileInfo is a fake file info for the root of the tree.
-type rootFileInfo struct{}
+// dirFileInfo is a fake file info for the root of the tree, and for any
+// directories that have no entry of their own in the tarball.
+type dirFileInfo struct{ name string }
 
-func (r rootFileInfo) Name() string       { return "" }
-func (r rootFileInfo) Size() int64        { return 0 }
-func (r rootFileInfo) Mode() os.FileMode  { return os.ModeDir }
-func (r rootFileInfo) ModTime() time.Time { return rootMtime }
-func (r rootFileInfo) IsDir() bool        { return true }
-func (r rootFileInfo) Sys() interface{}   { return nil }
+func (d dirFileInfo) Name() string       { return d.name }
+func (d dirFileInfo) Size() int64        { return 0 }
+func (d dirFileInfo) Mode() os.FileMode  { return os.ModeDir }
+func (d dirFileInfo) ModTime() time.Time { return rootMtime }
+func (d dirFileInfo) IsDir() bool        { return true }
+func (d dirFileInfo) Sys() interface{}   { return nil }
 
 // FS is an http.FileServer for a tarball.
 type FS struct {
@@ -46,7 +47,7 @@ func New(data []byte) (*FS, error) {
 	fs := &FS{
 		root: newFile(),
 	}
-	fs.root.setFileInfo(rootFileInfo{})
+	fs.root.setFileInfo(dirFileInfo{})
 
 	tardata := tar.NewReader(gzdata)
 	for {
@@ -96,6 +97,7 @@ func (fs *FS) getFile(path string, alloc bool) *file {
 				return fs.def
 			}
 			child = newFile()
+			child.setFileInfo(dirFileInfo{name: part})
 			children[part] = child
 		}
 	}
-- 
2.43.0


From 37879268023b7e06aabd9b34d70ad81f20c22059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:17 +0000
Subject: [PATCH 29/30] fix: answer the requests in flight before exiting on an
 interrupt

---
 run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run.go b/run.go
index a8fae0c..024c212 100644
--- a/run.go
+++ b/run.go
@@ -239,7 +239,9 @@ func runServer(ctx context.Context, srv *http.Server, cert, key string) (
 	defer cancel()
 
 	// monitor when we're done and try to shut down the server.
+	shutdown := make(chan struct{})
 	go func(ctx context.Context) {
+		defer close(shutdown)
 		<-ctx.Done()
 
 		// give the shutdown one minute to clean up
@@ -263,6 +265,9 @@ func runServer(ctx context.Context, srv *http.Server, cert, key string) (
 		err = srv.Serve(ke_lis)
 	}
 	if err == http.ErrServerClosed {
+		// Serve returns as soon as the shutdown begins. the requests that are
+		// being answered would be cut off if we did not wait for its end.
+		<-shutdown
 		err = nil
 	}
 	return errs.Wrap(err)
-- 
2.43.0


From 61e2a7276cf1bf63fdf0f6b27eae9aca1ec17d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:23 +0000
Subject: [PATCH 30/30] fix: draw a heatmap and key of one row instead of
 panicking

---
 draw/heatmap/heatmap.go | 5 ++++-
 draw/key/key.go         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 57f597b..f901b89 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,7 +51,10 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := float64(len(col.Data)-1) / float64(d.height-1)
+	index_scale := 0.0
+	if d.height > 1 { // a single row only has room for the first index
+		index_scale = float64(len(col.Data)-1) / float64(d.height-1)
+	}
 	m := d.m
 
 	for y := 0; y < d.height; y++ {
diff --git a/draw/key/key.go b/draw/key/key.go
index fdd4191..6d1988c 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,7 +29,10 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	scale := 0.0
+	if opts.Height > 1 { // a single row only has room for the first color
+		scale = float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	}
 	for y := 0; y < opts.Height; y++ {
 		index := int(float64(opts.Height-1-y) * scale)
 		color := opts.Colors[index]
-- 
2.43.0

