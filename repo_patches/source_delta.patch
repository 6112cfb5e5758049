From 7e7452810f04258588ac01eff8b25db3b3ac1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 01/22] fix: LumpIndex count must not change when an entry is
 replaced or an absent id is deleted

---
 lumpindex/lump_index.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..a86eac5 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,29 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
+	index.insert(id, n)
+}
+
+//replacing an entry does not change the number of entries
+func (index *LumpIndex) insert(id lump.LumpId, n uint64) {
+	if _, have := index.tree.Get(id.U64()); !have {
+		atomic.AddUint64(&index.counts, 1)
+	}
 	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
-	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	ok := index.tree.Delete(id.U64())
+	if ok {
+		atomic.AddUint64(&index.counts, ^uint64(0))
+	}
+	return ok
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From 3be247453b33a9143bacc9bfa38a4a649b08b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 02/22] fix: block.FromBytes copies the source to the aligned
 start of the buffer

---
 block/aligned_bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..ceb11eb 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -61,11 +61,14 @@ func FromBytes(src []byte, blockSize BlockSize) *AlignedBytes {
 
 //for debug
 func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
+	if len(src) == 0 {
+		return NewAlignedBytes(0, blockSize), true
+	}
 	a := alignment(src, blockSize.AsU16())
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From b340a564007316a69875bae7dbfad0e5ca1a54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 03/22] fix: JournalNvmBuffer.Write must not drop buffered
 bytes or ignore read errors

---
 storage/journal/nvm_buffer.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..4bd154d 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -95,6 +95,12 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 
 	start := jb.position - readBufStart
 	end := util.Min(uint64(innerReadSize), start+uint64(len(buf)))
+	if end <= start {
+		if len(buf) == 0 {
+			return 0, nil
+		}
+		return 0, io.EOF
+	}
 	readSize := end - start
 
 	//fmt.Printf("inner read size: %d,buf len %d, readSize %d, start: %d, end :%d\n", innerReadSize, len(buf), readSize, start, end)
@@ -120,12 +126,13 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		start := jb.position - writeBufStart
 		end := uint32(start) + uint32(len(buf))
 
-		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
-
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+		//never shrink: the bytes after end may not be written yet
+		if oldLen := jb.writeBuf.Len(); end > oldLen {
+			jb.writeBuf.AlignResize(end)
+			if err := jb.fillWriteBuffer(oldLen); err != nil {
+				jb.writeBuf.Truncate(oldLen)
+				return 0, err
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
@@ -149,8 +156,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if err := jb.fillWriteBuffer(0); err != nil {
+				jb.writeBuf.Truncate(0)
+				return 0, err
+			}
 		}
 
 		//call
@@ -158,6 +167,15 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 	}
 }
 
+//load writeBuf[from:] from nvm
+func (jb *JournalNvmBuffer) fillWriteBuffer(from uint32) error {
+	if _, err := jb.nvm.Seek(int64(jb.writeBufOffset+uint64(from)), io.SeekStart); err != nil {
+		return err
+	}
+	_, err := io.ReadFull(jb.nvm, jb.writeBuf.AsBytes()[from:])
+	return err
+}
+
 func (jb *JournalNvmBuffer) Close() error {
 	return jb.Sync()
 }
-- 
2.43.0


From 0be42485383127c31581abda3dce099892768445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 04/22] fix: journal ring refuses a wrap that does not fit,
 ends the front before GoToFront and reports entry positions

---
 storage/journal/ring_buffer.go | 97 +++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 31 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..b52dafb 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -2,11 +2,13 @@ package journal
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"sync/atomic"
 
 	"github.com/klauspost/readahead"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/address"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/nvm"
@@ -97,11 +99,15 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//2. check overflow
 	if ring.isOverFlow(record) {
-		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+		//the front must end there before anything leads to it: after a crash, the
+		//stale records at the front must not be read as a part of the journal
+		if err = ring.writeAt(0, EndOfRecords{}); err != nil {
 			return
 		}
-		r := GoToFront{}
-		if err = r.WriteTo(ring.nvm); err != nil {
+		if err = ring.nvm.Sync(); err != nil {
+			return
+		}
+		if err = ring.writeAt(ring.tail, GoToFront{}); err != nil {
 			return
 		}
 
@@ -110,21 +116,12 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 		return ring.Enqueue(record)
 	}
 
-	//3. write data
+	//3. write data and End OF Record
 	preTail := ring.tail
-	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-		return
-	}
-	if err = record.WriteTo(ring.nvm); err != nil {
-		return
-	}
-	ring.tail = ring.nvm.Position()
-
-	//4. write End OF Record
-	endRecord := EndOfRecords{}
-	if err = endRecord.WriteTo(ring.nvm); err != nil {
+	if err = ring.writeAt(ring.tail, record, EndOfRecords{}); err != nil {
 		return
 	}
+	ring.tail += uint64(record.ExternalSize())
 
 	switch r := record.(type) {
 	case EmbedRecord:
@@ -135,6 +132,21 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+//write records at position, all or nothing
+func (ring *JournalRingBuffer) writeAt(position uint64, records ...JournalRecord) (err error) {
+	buf := new(bytes.Buffer)
+	for _, record := range records {
+		if err = record.WriteTo(buf); err != nil {
+			return
+		}
+	}
+	if _, err = ring.nvm.Seek(int64(position), io.SeekStart); err != nil {
+		return
+	}
+	_, err = ring.nvm.Write(buf.Bytes())
+	return
+}
+
 func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
@@ -145,6 +157,11 @@ func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	var freeEnd uint64
 	if ring.tail < ring.unreleasedHead {
 		freeEnd = ring.unreleasedHead
+	} else if ring.isOverFlow(record) {
+		//the whole record goes to the front
+		writeEnd = uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+		writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
+		freeEnd = ring.unreleasedHead
 	} else {
 		freeEnd = ring.Capacity() + ring.unreleasedHead
 	}
@@ -167,6 +184,8 @@ func (ring *JournalRingBuffer) ReleaseBytesUntil(head uint64) {
 	ring.DoStoreUsage()
 }
 
+var errTwoGoToFront = errors.Wrap(internalerror.StorageCorrupted, "has two GoToFront in journal")
+
 /*No buffer and update head*/
 type DequeueIter struct {
 	readBuf      *SeekableReader
@@ -174,7 +193,7 @@ type DequeueIter struct {
 	isSecondLoop bool
 }
 
-func (iter DequeueIter) PopFront() (entry JournalEntry, err error) {
+func (iter *DequeueIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.readBuf)
 	if err != nil {
 		return JournalEntry{}, err
@@ -182,10 +201,12 @@ func (iter DequeueIter) PopFront() (entry JournalEntry, err error) {
 	switch record.(type) {
 	case GoToFront:
 		if iter.isSecondLoop == true {
-			panic("has two GoToFront in journal")
+			return JournalEntry{}, errTwoGoToFront
+		}
+		if _, err = iter.readBuf.Seek(0, io.SeekStart); err != nil {
+			return JournalEntry{}, err
 		}
 		iter.ring.head = 0
-		iter.readBuf.Seek(0, io.SeekStart)
 		iter.isSecondLoop = true
 		return iter.PopFront()
 	case EndOfRecords:
@@ -204,20 +225,27 @@ func (iter DequeueIter) PopFront() (entry JournalEntry, err error) {
 
 /*Use buffer and update tail*/
 type BufferedIter struct {
-	fastReader readahead.ReadSeekCloser
-	ring       *JournalRingBuffer
+	fastReader   readahead.ReadSeekCloser
+	ring         *JournalRingBuffer
+	isSecondLoop bool
 }
 
 //Update the ring.tail
-func (iter BufferedIter) PopFront() (entry JournalEntry, err error) {
+func (iter *BufferedIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.fastReader)
 	if err != nil {
 		return JournalEntry{}, err
 	}
 	switch record.(type) {
 	case GoToFront:
+		if iter.isSecondLoop == true {
+			return JournalEntry{}, errTwoGoToFront
+		}
+		if _, err = iter.fastReader.Seek(0, io.SeekStart); err != nil {
+			return JournalEntry{}, err
+		}
 		iter.ring.tail = 0
-		iter.fastReader.Seek(0, io.SeekStart)
+		iter.isSecondLoop = true
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.tail
@@ -238,28 +266,37 @@ func (iter BufferedIter) Close() {
 
 /*No buffer and update nothing*/
 type ReadIter struct {
-	ring *JournalRingBuffer
+	ring         *JournalRingBuffer
+	current      uint64
+	isSecondLoop bool
 }
 
 /* No buffer and update nothing */
-func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
+func (iter *ReadIter) PopFront() (entry JournalEntry, err error) {
+	if _, err = iter.ring.nvm.Seek(int64(iter.current), io.SeekStart); err != nil {
+		return JournalEntry{}, err
+	}
 	record, err := ReadRecordFrom(iter.ring.nvm)
 	if err != nil {
 		return JournalEntry{}, err
 	}
 	switch record.(type) {
 	case GoToFront:
-		iter.ring.nvm.Seek(0, 0)
+		if iter.isSecondLoop == true {
+			return JournalEntry{}, errTwoGoToFront
+		}
+		iter.current = 0
+		iter.isSecondLoop = true
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.head
 		return JournalEntry{}, internalerror.NoEntries
 	default:
 		entry = JournalEntry{
-			Start:  address.AddressFromU64(iter.ring.head),
+			Start:  address.AddressFromU64(iter.current),
 			Record: record,
 		}
-		//current = entry.End()
+		iter.current = entry.End()
 		return entry, nil
 	}
 }
@@ -296,11 +333,9 @@ func (ring *JournalRingBuffer) DequeueIter() DequeueIter {
 
 /*No buffer and update nothing*/
 func (ring *JournalRingBuffer) ReadIter() ReadIter {
-	if _, err := ring.nvm.Seek(int64(ring.unreleasedHead), 0); err != nil {
-		panic(fmt.Sprintf("panic in new DequeueIter %+v", err))
-	}
 	return ReadIter{
-		ring: ring,
+		ring:    ring,
+		current: ring.unreleasedHead,
 	}
 }
 
-- 
2.43.0


From 0860c2e3540179d6dd4d28eaab2b1778bf4fb9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 05/22] fix: journal GC keeps live records, makes them durable
 before releasing, and never wedges

---
 storage/journal/journal_header_region.go |   7 +-
 storage/journal/record.go                |   2 +-
 storage/journal/region.go                | 175 ++++++++++++++++-------
 storage/journal/ring_buffer.go           |  10 ++
 storage/storage.go                       |  56 ++++----
 5 files changed, 167 insertions(+), 83 deletions(-)

diff --git a/storage/journal/journal_header_region.go b/storage/journal/journal_header_region.go
index e083a76..5312387 100644
--- a/storage/journal/journal_header_region.go
+++ b/storage/journal/journal_header_region.go
@@ -35,8 +35,11 @@ func (headerRegion *JournalHeaderRegion) WriteTo(head uint64) (err error) {
 	return nil
 	//if storage crashed, and the headerRegion did not SYNC to disk.
 	//the data consistence is still ensure. we could restore data from
-	//the last headerRegion.
-	//return headerRegion.nvm.Sync()
+	//the last headerRegion, as long as the records it refers to are not overwritten.
+}
+
+func (headerRegion *JournalHeaderRegion) Sync() error {
+	return headerRegion.nvm.Sync()
 }
 
 func (headerRegion *JournalHeaderRegion) ReadFrom() (head uint64, err error) {
diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..6c5fa76 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -319,7 +319,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown tag: %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..9ff50b9 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/phf/go-queue/queue"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/block"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/lump"
@@ -14,6 +15,7 @@ import (
 	x "github.com/thesues/cannyls-go/metrics"
 	"github.com/thesues/cannyls-go/nvm"
 	"github.com/thesues/cannyls-go/portion"
+	"github.com/thesues/cannyls-go/util"
 	ostats "go.opencensus.io/stats"
 )
 
@@ -22,6 +24,8 @@ const (
 	//performance related
 	GC_QUEUE_SIZE = 0x2000
 	SYNC_INTERVAL = 0x2000
+	//journal bytes to collect for each byte appended by user
+	GC_BYTES_PER_BYTE = 3
 )
 
 type JournalRegion struct {
@@ -30,6 +34,7 @@ type JournalRegion struct {
 	gcQueue       *queue.Queue
 	syncCountDown int
 	gcAfterAppend bool
+	maxRecordSize uint64 //no record in the ring is bigger
 }
 
 func (journal *JournalRegion) SetAutomaticGcMode(gc bool) {
@@ -84,19 +89,23 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	}, nil
 }
 
-func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) error {
 	var entry JournalEntry
 	var err error
 	iter := journal.ring.BufferedIter()
+	//this iter has more than one goroutine to read data from nvm
+	//It must be sure all the goroutines are closed before normal operations
+	defer iter.Close()
 	var i int64 = 0
 	for {
 		entry, err = iter.PopFront()
 		if err != nil {
 			if err != internalerror.NoEntries {
-				panic(fmt.Sprintf("Can not restore journal :%v", err))
+				return errors.Wrap(err, "Can not restore journal")
 			}
 			break
 		}
+		journal.noteRecordSize(entry.Record)
 		switch record := entry.Record.(type) {
 		case PutRecord:
 			index.InsertDataPortion(record.LumpID, record.DataPortion)
@@ -120,10 +129,7 @@ func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(i))
 	//update usage
 	journal.ring.DoStoreUsage()
-
-	//this iter has more than one goroutine to read data from nvm
-	//It must be sure all the goroutines are closed before normal operations
-	iter.Close()
+	return nil
 }
 
 func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalRecord) error {
@@ -132,29 +138,77 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
-	//because journal GC start after append, to prevent to be GCed
+	journal.noteRecordSize(record)
+	//we should update the index as well, because journal GC start after append:
+	//the new record must not be taken as garbage, and the records it replaces must be
 	switch v := record.(type) {
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
+	case DeleteRecord:
+		index.Delete(v.LumpID)
+	case DeleteRange:
+		index.DeleteRange(v.Start, v.End)
 	}
 	return nil
 }
 
-func (journal *JournalRegion) appendWithGC(index *lumpindex.LumpIndex, record JournalRecord) (err error) {
-	//metric
-	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
+func (journal *JournalRegion) noteRecordSize(record JournalRecord) {
+	journal.maxRecordSize = util.Max(journal.maxRecordSize, uint64(record.ExternalSize()))
+}
+
+//GC moves records from the head to the tail. Keep enough room to move the biggest one,
+//otherwise a full journal could never be collected
+func (journal *JournalRegion) hasRoom(record JournalRecord) bool {
+	capacity := journal.ring.Capacity()
+	maxSize := util.Max(journal.maxRecordSize, uint64(record.ExternalSize())) + END_OF_RECORDS_SIZE
+	reserve := 2*maxSize + uint64(journal.ring.nvm.BlockSize().AsU16())
+	if reserve > capacity/2 {
+		//the journal is too small to reserve anything
+		return true
+	}
+	return journal.ring.usageAfter(record)+reserve <= capacity
+}
 
-	if err = journal.append(index, record); err != nil {
+//append a record on behalf of user
+func (journal *JournalRegion) appendRecord(index *lumpindex.LumpIndex, record JournalRecord) error {
+	if !journal.hasRoom(record) {
+		return internalerror.JournalStorageFull
+	}
+	return journal.append(index, record)
+}
+
+func (journal *JournalRegion) appendWithGC(index *lumpindex.LumpIndex, record JournalRecord) (err error) {
+	err = journal.appendRecord(index, record)
+	if err == internalerror.JournalStorageFull && journal.gcAfterAppend {
+		journal.GcAllEntries(index)
+		err = journal.appendRecord(index, record)
+	}
+	if err != nil {
 		return err
 	}
+	//metric
+	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
 	if journal.gcAfterAppend {
-		journal.gcOnce(index)
+		journal.gcBytes(index, GC_BYTES_PER_BYTE*uint64(record.ExternalSize()))
 	}
 	journal.trySync()
 	return
 }
 
+//GC must be faster than append, at least "size" bytes in gcQueue are processed
+func (journal *JournalRegion) gcBytes(index *lumpindex.LumpIndex, size uint64) {
+	var done uint64
+	for {
+		n, err := journal.gcOnce(index)
+		done += n
+		if err != nil || done >= size || journal.gcQueue.Len() == 0 {
+			return
+		}
+	}
+}
+
 //thread safe
 func (Journal *JournalRegion) Usage() uint64 {
 	return Journal.ring.Usage()
@@ -198,7 +252,9 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
-func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
+//process the entries in gcQueue until a live one is moved to the tail, return the number of
+//processed bytes.
+func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (size uint64, err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
 	}
@@ -208,10 +264,15 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 			entry := e.(JournalEntry)
 
 			if journal.isGarbage(index, entry) == false {
-				record := entry.Record
-				journal.append(index, record)
+				if err = journal.append(index, entry.Record); err != nil {
+					//it is still live, try again later
+					journal.gcQueue.PushFront(entry)
+				} else {
+					size += uint64(entry.Record.ExternalSize())
+				}
 				goto ENDFOR
 			}
+			size += uint64(entry.Record.ExternalSize())
 			//metric, if record is garbage, the recordCount should decrease
 			ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(-1))
 
@@ -222,30 +283,35 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 
 ENDFOR:
 	ostats.Record(context.Background(), x.JournalRegionMetric.GcQueueSize.M(int64(journal.gcQueue.Len())))
-
-	/*
-		front := journal.gcQueue.Front()
-		if front != nil {
-			//assert head == unrelease head
-			//head := journal.ring.Head()
-			head := front.(JournalEntry).Start
-			journal.ring.ReleaseBytesUntil(head.AsU64())
-		} else {
-			head := journal.ring.Head()
-			journal.ring.ReleaseBytesUntil(head)
-		}
-	*/
-
+	return
 }
 
-func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+//forget all the records before head, their space could be written again after this.
+func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) error {
+	if head == journal.ring.unreleasedHead {
+		return nil
+	}
+	//the live ones of them were moved to the tail, which must be on disk before header
+	journal.Sync()
+	//header must be on disk before anything is written over them
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		return err
+	}
+	if err := journal.headerRegion.Sync(); err != nil {
+		return err
+	}
 	journal.ring.ReleaseBytesUntil(head)
+	return nil
 }
 
 func (journal *JournalRegion) fillGCQueue() {
 
 	var err error
+	//all the entries before head have been processed
+	if err = journal.writeUnusedJournalHeader(journal.ring.head); err != nil {
+		return
+	}
+
 	if journal.ring.isEmpty() {
 		return
 	}
@@ -253,7 +319,6 @@ func (journal *JournalRegion) fillGCQueue() {
 	if err = journal.ring.Flush(); err != nil {
 		panic(fmt.Sprintf("fillGCQueue %+v", err))
 	}
-	journal.writeUnusedJournalHeader(journal.ring.head)
 
 	var i int
 	i = 0
@@ -296,7 +361,7 @@ func (journal *JournalRegion) trySync() {
 	}
 }
 
-//Write Journal, Update Index
+//All the Record functions write journal and update the index
 func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.LumpId, data portion.DataPortion) error {
 	record := PutRecord{
 		LumpID:      id,
@@ -305,7 +370,6 @@ func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.Lump
 	return journal.appendWithGC(index, record)
 }
 
-//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordEmbed(index *lumpindex.LumpIndex, id lump.LumpId, data []byte) error {
 	if len(data) > lump.MAX_EMBEDDED_SIZE {
 		return internalerror.InvalidInput
@@ -353,10 +417,23 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 	return
 }
 
-func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) error {
 	for journal.gcQueue.Len() != 0 {
-		journal.gcOnce(index)
+		if _, err := journal.gcOnce(index); err == nil {
+			continue
+		} else if err != internalerror.JournalStorageFull {
+			return err
+		}
+		//no room to move the front entry, release the processed ones before it
+		start := journal.gcQueue.Front().(JournalEntry).Start.AsU64()
+		if start == journal.ring.unreleasedHead {
+			return internalerror.JournalStorageFull
+		}
+		if err := journal.writeUnusedJournalHeader(start); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []JournalEntry) {
@@ -375,26 +452,26 @@ func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []Journa
 	return journal.ring.unreleasedHead, journal.ring.head, journal.ring.tail, entries
 }
 
-//maybe sync
+//process all the entries which are in the journal now
 func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 	tail := journal.ring.Tail()
-	for {
+	//[unreleasedHead, head) is already in queue
+	err := journal.gcAllEntriesInQueue(index)
+	for err == nil && journal.ring.Head() != tail {
 		before_head := journal.ring.Head()
 
-		if journal.gcQueue.Len() == 0 {
-			journal.fillGCQueue()
-		}
-
-		journal.gcAllEntriesInQueue(index)
+		journal.fillGCQueue()
+		err = journal.gcAllEntriesInQueue(index)
 
-		if between(before_head, tail, journal.ring.Head()) {
+		if before_head == journal.ring.Head() || between(before_head, tail, journal.ring.Head()) {
 			break
 		}
 	}
-	journal.writeUnusedJournalHeader(journal.ring.Head())
-	//assert head == unreleased_head
-	//journal.headerRegion.WriteTo(journal.ring.Head())
-	//journal.Sync()
+	if front := journal.gcQueue.Front(); front != nil {
+		journal.writeUnusedJournalHeader(front.(JournalEntry).Start.AsU64())
+	} else {
+		journal.writeUnusedJournalHeader(journal.ring.Head())
+	}
 }
 
 //I do not understand this!
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index b52dafb..3e0306c 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -74,6 +74,16 @@ func (ring *JournalRingBuffer) DoStoreUsage() {
 	atomic.StoreUint64(&ring.usage, usage)
 }
 
+//usage if record was appended
+func (ring *JournalRingBuffer) usageAfter(record JournalRecord) uint64 {
+	usage := ring.Usage() + uint64(record.ExternalSize())
+	if ring.tail >= ring.unreleasedHead && ring.isOverFlow(record) {
+		//the end of ring is skipped
+		usage += ring.Capacity() - ring.tail
+	}
+	return usage
+}
+
 //go routine safe
 func (ring *JournalRingBuffer) Usage() uint64 {
 	return atomic.LoadUint64(&ring.usage)
diff --git a/storage/storage.go b/storage/storage.go
index bac392b..2dee7c8 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -74,7 +74,9 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		return nil, err
 	}
 
-	journalRegion.RestoreIndex(index)
+	if err = journalRegion.RestoreIndex(index); err != nil {
+		return nil, err
+	}
 	/*
 		fmt.Printf("Index's mem is %d\n", index.MemoryUsed())
 		id, _ := index.Min()
@@ -488,12 +490,6 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
-
-	if int64(lumpdata.Inner.Len()) == 1 {
-
-		panic("FUCK")
-	}
 	return
 }
 
@@ -591,15 +587,17 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	//Because previous Get is ok, this Delete will surely success
-	if ok := store.index.Delete(lumpid); ok == false {
-		panic("Delete after Get failed, something bad happend")
-	}
-
 	if doRecord {
+		//this removes the lump from index too
 		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
+		err = store.journalRegion.RecordDelete(store.index, lumpid)
 		store.jr.Unlock()
+		if err != nil {
+			return false, 0, err
+		}
+	} else if ok := store.index.Delete(lumpid); ok == false {
+		//Because previous Get is ok, this Delete will surely success
+		panic("Delete after Get failed, something bad happend")
 	}
 
 	var releasedSize uint32
@@ -707,25 +705,25 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 	if !store.opened {
 		return internalerror.StorageClosed
 	}
+	var released []portion.DataPortion
+	store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
+		switch v := p.(type) {
+		case portion.DataPortion:
+			released = append(released, v)
+		}
+		return nil
+	})
+	//this removes the lumps from index too
 	store.jr.Lock()
 	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
 	store.jr.Unlock()
 	if err != nil {
 		return err
 	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
-		switch v := p.(type) {
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-		return nil
-
-	})
+	for _, p := range released {
+		store.dataRegion.Release(p)
+	}
+	return nil
 }
 
 //added API for raft log and raft apply
@@ -795,9 +793,5 @@ func (store *Storage) WriteRecord(lumpid lump.LumpId, dataPortion portion.DataPo
 	if store.opened == false {
 		return internalerror.StorageClosed
 	}
-	if err := store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
-		return err
-	}
-	store.index.InsertDataPortion(lumpid, dataPortion)
-	return nil
+	return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 }
-- 
2.43.0


From 9e5e3e858989f6463a22434d989a51d10a0fd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 06/22] fix: overwrites, failed operations and deletes keep the
 old value until the journal says otherwise

---
 storage/allocator/allocator.go      |  24 ++++
 storage/allocator/judy_allocator.go |  15 +++
 storage/data_region.go              |  64 +++++++++-
 storage/journal/region.go           |  55 +++++++--
 storage/journal/ring_buffer.go      |  24 ++--
 storage/storage.go                  | 178 ++++++++++++++++++----------
 6 files changed, 266 insertions(+), 94 deletions(-)

diff --git a/storage/allocator/allocator.go b/storage/allocator/allocator.go
index 36798ea..f353ce3 100644
--- a/storage/allocator/allocator.go
+++ b/storage/allocator/allocator.go
@@ -20,6 +20,7 @@ type DataPortionAlloc interface {
 	Display()
 	Allocate(size uint16) (free portion.DataPortion, err error)
 	Release(p portion.DataPortion)
+	ReleasedLen(p portion.DataPortion) uint64
 	RestoreFromIndex(blockSize block.BlockSize, capacityInByte uint64, vec []portion.DataPortion)
 	MemoryUsed() uint64
 	FreeCount() uint64
@@ -146,6 +147,29 @@ func (alloc *BtreeDataPortionAlloc) Release(p portion.DataPortion) {
 
 }
 
+//length of the free portion which would contain p, if p was released
+func (alloc *BtreeDataPortionAlloc) ReleasedLen(p portion.DataPortion) uint64 {
+	free := portion.FromDataPortion(p)
+	size := free.Len()
+	key := portion.EndBasedPortion(portion.NewFreePortion(free.Start(), 0))
+	if item := alloc.endToFree.Get(key); item != nil {
+		prev := portion.FreePortion(item.(portion.EndBasedPortion))
+		if _, ok := prev.CheckedExtend(size); ok {
+			size += prev.Len()
+		}
+	}
+	key = portion.EndBasedPortion(portion.NewFreePortion(free.End(), 0))
+	alloc.endToFree.AscendGreaterOrEqual(key, func(a btree.Item) bool {
+		next := portion.FreePortion(a.(portion.EndBasedPortion))
+		//portion which ends at free.End() is not possible, because free is not released
+		if _, ok := next.CheckedExtend(size); ok && next.Start() == free.End() {
+			size += next.Len()
+		}
+		return false
+	})
+	return uint64(size)
+}
+
 func (alloc *BtreeDataPortionAlloc) GetAllocationBitStatus(n uint64, totalBlocks uint64) []float64 {
 
 	//create a new bitmap
diff --git a/storage/allocator/judy_allocator.go b/storage/allocator/judy_allocator.go
index 5ca01bc..84fcb7f 100644
--- a/storage/allocator/judy_allocator.go
+++ b/storage/allocator/judy_allocator.go
@@ -230,6 +230,21 @@ func (alloc *JudyPortionAlloc) Release(p portion.DataPortion) {
 	alloc.updateMaxSegmentSize()
 }
 
+//length of the free portion which would contain p, if p was released
+func (alloc *JudyPortionAlloc) ReleasedLen(p portion.DataPortion) uint64 {
+	free := fromDataPortionToJudy(p)
+	size := free.Len()
+	index, ok := alloc.startBasedTree.Prev(uint64(newJudyPortion(free.Start(), 0)))
+	if prev := JudyPortion(index); ok && prev.End() == free.Start() && prev.CheckedExtend(size) {
+		size += prev.Len()
+	}
+	index, ok = alloc.startBasedTree.First(uint64(newJudyPortion(free.End(), 0)))
+	if next := JudyPortion(index); ok && next.Start() == free.End() && next.CheckedExtend(size) {
+		size += next.Len()
+	}
+	return uint64(size)
+}
+
 func (alloc *JudyPortionAlloc) isOverlapedPortion(p portion.DataPortion) bool {
 	free := fromDataPortionToJudy(p)
 	search := newJudyPortion(free.End(), 0)
diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..e626f5e 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -26,6 +26,9 @@ type DataRegion struct {
 	allocator  allocator.DataPortionAlloc
 	nvm        nvm.NonVolatileMemory
 	block_size block.BlockSize
+	//released portions, the journal on disk may still refer to them.
+	//they must not be written until journal is synced
+	released []portion.DataPortion
 }
 
 func NewDataRegion(alloc allocator.DataPortionAlloc, nvm nvm.NonVolatileMemory) *DataRegion {
@@ -55,11 +58,20 @@ func (region *DataRegion) shiftBlockSize(size uint32) uint32 {
       +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
 */
 
-//WARNING: this PUT would CHANGE (data *lump.LumpData),
+//WARNING: this PUT would CHANGE (data *lump.LumpData), if it succeeds
 //thread-safe
-func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
+func (region *DataRegion) Put(data lump.LumpData) (data_portion portion.DataPortion, err error) {
+
+	if data.Inner == nil || data.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "data is too big")
+	}
 
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
+	defer func() {
+		if err != nil {
+			data.Inner.Resize(size - LUMP_DATA_TRAILER_SIZE)
+		}
+	}()
 
 	//Aligned
 	data.Inner.AlignResize(size)
@@ -75,7 +87,7 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	requiredBlocks := region.shiftBlockSize(data.Inner.Len())
 
 	region.Lock()
-	data_portion, err := region.allocator.Allocate(uint16(requiredBlocks))
+	data_portion, err = region.allocator.Allocate(uint16(requiredBlocks))
 	region.Unlock()
 
 	if err != nil {
@@ -96,12 +108,15 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 			return data_portion, err
 		}
 	*/
-	_, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
+	if _, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset)); err != nil {
+		region.free(data_portion)
+		return portion.DataPortion{}, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	return data_portion, nil
 }
 
 //thread-safe
@@ -169,12 +184,51 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 }
 
 //thread safe
+//portion can be allocated again after FreeReleased
 func (region *DataRegion) Release(portion portion.DataPortion) {
+	region.Lock()
+	defer region.Unlock()
+	region.released = append(region.released, portion)
+}
+
+//thread safe
+//must be called after journal is synced, no journal record on disk refers to them any more
+func (region *DataRegion) FreeReleased() {
+	region.Lock()
+	defer region.Unlock()
+	for _, p := range region.released {
+		region.allocator.Release(p)
+	}
+	region.released = nil
+}
+
+func (region *DataRegion) free(portion portion.DataPortion) {
 	region.Lock()
 	defer region.Unlock()
 	region.allocator.Release(portion)
 }
 
+//thread safe
+//number of blocks which are not occupied by lumps
+func (region *DataRegion) FreeBlocks() uint64 {
+	region.Lock()
+	defer region.Unlock()
+	n := region.allocator.FreeCount()
+	for _, p := range region.released {
+		n += uint64(p.Len)
+	}
+	return n
+}
+
+//thread safe
+//whether data could be stored if old was not there
+func (region *DataRegion) fitsWithout(old portion.DataPortion, data lump.LumpData) bool {
+	region.Lock()
+	defer region.Unlock()
+	blocks := region.shiftBlockSize(data.Inner.Len() + LUMP_DATA_TRAILER_SIZE)
+	return region.allocator.ReleasedLen(old) >= uint64(blocks)
+}
+
 //read/write threadSafe
 func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32, err error) {
 	/*
diff --git a/storage/journal/region.go b/storage/journal/region.go
index 9ff50b9..b1b7e5c 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -35,6 +35,12 @@ type JournalRegion struct {
 	syncCountDown int
 	gcAfterAppend bool
 	maxRecordSize uint64 //no record in the ring is bigger
+	afterSync     func()
+}
+
+//fn is called when all the records are on disk
+func (journal *JournalRegion) SetAfterSync(fn func()) {
+	journal.afterSync = fn
 }
 
 func (journal *JournalRegion) SetAutomaticGcMode(gc bool) {
@@ -160,38 +166,43 @@ func (journal *JournalRegion) noteRecordSize(record JournalRecord) {
 
 //GC moves records from the head to the tail. Keep enough room to move the biggest one,
 //otherwise a full journal could never be collected
-func (journal *JournalRegion) hasRoom(record JournalRecord) bool {
+func (journal *JournalRegion) hasRoom(size uint64) bool {
+	if !journal.ring.checkFreeSpace(size) {
+		return false
+	}
 	capacity := journal.ring.Capacity()
-	maxSize := util.Max(journal.maxRecordSize, uint64(record.ExternalSize())) + END_OF_RECORDS_SIZE
+	maxSize := util.Max(journal.maxRecordSize, size) + END_OF_RECORDS_SIZE
 	reserve := 2*maxSize + uint64(journal.ring.nvm.BlockSize().AsU16())
 	if reserve > capacity/2 {
 		//the journal is too small to reserve anything
 		return true
 	}
-	return journal.ring.usageAfter(record)+reserve <= capacity
+	return journal.ring.usageAfter(size)+reserve <= capacity
 }
 
-//append a record on behalf of user
-func (journal *JournalRegion) appendRecord(index *lumpindex.LumpIndex, record JournalRecord) error {
-	if !journal.hasRoom(record) {
+//make room for size bytes of user's records
+func (journal *JournalRegion) makeRoom(index *lumpindex.LumpIndex, size uint64) error {
+	if !journal.hasRoom(size) && journal.gcAfterAppend {
+		journal.GcAllEntries(index)
+	}
+	if !journal.hasRoom(size) {
 		return internalerror.JournalStorageFull
 	}
-	return journal.append(index, record)
+	return nil
 }
 
 func (journal *JournalRegion) appendWithGC(index *lumpindex.LumpIndex, record JournalRecord) (err error) {
-	err = journal.appendRecord(index, record)
-	if err == internalerror.JournalStorageFull && journal.gcAfterAppend {
-		journal.GcAllEntries(index)
-		err = journal.appendRecord(index, record)
+	size := uint64(record.ExternalSize())
+	if err = journal.makeRoom(index, size); err != nil {
+		return err
 	}
-	if err != nil {
+	if err = journal.append(index, record); err != nil {
 		return err
 	}
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
 	if journal.gcAfterAppend {
-		journal.gcBytes(index, GC_BYTES_PER_BYTE*uint64(record.ExternalSize()))
+		journal.gcBytes(index, GC_BYTES_PER_BYTE*size)
 	}
 	journal.trySync()
 	return
@@ -345,6 +356,9 @@ func (journal *JournalRegion) Sync() {
 		panic(fmt.Sprintf("journal sync failed: %v", err))
 	}
 	journal.syncCountDown = SYNC_INTERVAL
+	if journal.afterSync != nil {
+		journal.afterSync()
+	}
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.Syncs.M(1))
 }
@@ -396,6 +410,21 @@ func (journal *JournalRegion) RecordDeleteRange(index *lumpindex.LumpIndex, star
 	return journal.appendWithGC(index, record)
 }
 
+//delete id, and leave room for a RecordPut after it. the record is on disk when it returns
+func (journal *JournalRegion) RecordDeleteBeforePut(index *lumpindex.LumpIndex, id lump.LumpId) error {
+	record := DeleteRecord{LumpID: id}
+	size := uint64(record.ExternalSize() + PutRecord{}.ExternalSize())
+	if err := journal.makeRoom(index, size); err != nil {
+		return err
+	}
+	if err := journal.append(index, record); err != nil {
+		return err
+	}
+	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
+	journal.Sync()
+	return nil
+}
+
 func (journal *JournalRegion) RunSideJobOnce(index *lumpindex.LumpIndex, countSideJob int) {
 	if journal.gcQueue.Len() == 0 {
 		journal.fillGCQueue()
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 3e0306c..d92cefa 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -74,10 +74,10 @@ func (ring *JournalRingBuffer) DoStoreUsage() {
 	atomic.StoreUint64(&ring.usage, usage)
 }
 
-//usage if record was appended
-func (ring *JournalRingBuffer) usageAfter(record JournalRecord) uint64 {
-	usage := ring.Usage() + uint64(record.ExternalSize())
-	if ring.tail >= ring.unreleasedHead && ring.isOverFlow(record) {
+//usage if a record of size was appended
+func (ring *JournalRingBuffer) usageAfter(size uint64) uint64 {
+	usage := ring.Usage() + size
+	if ring.tail >= ring.unreleasedHead && ring.isOverFlow(size) {
 		//the end of ring is skipped
 		usage += ring.Capacity() - ring.tail
 	}
@@ -102,13 +102,13 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	jportion = portion.JournalPortion{}
 	err = nil
 	//1. check usage
-	if ring.checkFreeSpace(record) == false {
+	if ring.checkFreeSpace(uint64(record.ExternalSize())) == false {
 		err = internalerror.JournalStorageFull
 		return
 	}
 
 	//2. check overflow
-	if ring.isOverFlow(record) {
+	if ring.isOverFlow(uint64(record.ExternalSize())) {
 		//the front must end there before anything leads to it: after a crash, the
 		//stale records at the front must not be read as a part of the journal
 		if err = ring.writeAt(0, EndOfRecords{}); err != nil {
@@ -157,8 +157,8 @@ func (ring *JournalRingBuffer) writeAt(position uint64, records ...JournalRecord
 	return
 }
 
-func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
-	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+func (ring *JournalRingBuffer) checkFreeSpace(size uint64) bool {
+	writeEnd := ring.tail + size + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
 
 	/*
@@ -167,9 +167,9 @@ func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	var freeEnd uint64
 	if ring.tail < ring.unreleasedHead {
 		freeEnd = ring.unreleasedHead
-	} else if ring.isOverFlow(record) {
+	} else if ring.isOverFlow(size) {
 		//the whole record goes to the front
-		writeEnd = uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+		writeEnd = size + END_OF_RECORDS_SIZE
 		writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
 		freeEnd = ring.unreleasedHead
 	} else {
@@ -184,8 +184,8 @@ func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	return true
 }
 
-func (ring *JournalRingBuffer) isOverFlow(record JournalRecord) bool {
-	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+func (ring *JournalRingBuffer) isOverFlow(size uint64) bool {
+	writeEnd := ring.tail + size + END_OF_RECORDS_SIZE
 	return writeEnd > ring.nvm.Capacity()
 }
 
diff --git a/storage/storage.go b/storage/storage.go
index 2dee7c8..fbdcfdc 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -98,6 +98,7 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	*/
 
 	dataRegion := NewDataRegion(alloc, dataNVM)
+	journalRegion.SetAfterSync(dataRegion.FreeReleased)
 
 	//Add a go routing to collect capacity information into metric
 
@@ -269,7 +270,7 @@ func (store *Storage) Usage() StorageUsage {
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
-		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
+		DataFreeBytes:     store.dataRegion.FreeBlocks() * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
 		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
@@ -383,15 +384,14 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//the portion must not be released while reading
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
 
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -412,13 +412,13 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 }
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
+	//the portion must not be released while reading
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -444,13 +444,13 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 }
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
+	//the portion must not be released while reading
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -471,34 +471,78 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
+func isStorageFull(err error) bool {
+	return errors.Cause(err) == internalerror.StorageFull
+}
+
+//if replace is false, and lumpid exists, nothing is stored
+func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData, replace bool) (updated bool, err error) {
+	//the old data is kept until the new one is in journal
+	store.i.RLock()
+	if !store.opened {
+		store.i.RUnlock()
+		return false, internalerror.StorageClosed
+	}
 	dataPortion, err := store.dataRegion.Put(lumpdata)
-	if err != nil {
-		return
+	store.i.RUnlock()
+	if err != nil && !isStorageFull(err) {
+		return false, err
 	}
 
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+
+	old, oldErr := store.index.Get(lumpid)
+	updated = oldErr == nil
+	if updated && !replace {
+		if err == nil {
+			store.dataRegion.free(dataPortion)
+		}
+		return true, nil
+	}
 
 	store.jr.Lock()
-	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
-	store.jr.Unlock()
+	defer store.jr.Unlock()
 
 	if err != nil {
+		//the released space can be used after sync
+		store.journalSync()
+		dataPortion, err = store.dataRegion.Put(lumpdata)
+	}
+	if v, ok := old.(portion.DataPortion); ok && isStorageFull(err) && store.dataRegion.fitsWithout(v, lumpdata) {
+		//the only way is to delete the old one first
+		if err = store.journalRegion.RecordDeleteBeforePut(store.index, lumpid); err != nil {
+			return false, err
+		}
+		store.dataRegion.free(v)
+		old = nil
+		dataPortion, err = store.dataRegion.Put(lumpdata)
+	}
+	if err != nil {
+		return false, err
+	}
+
+	if err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
 		// revert the dataPortion
-		store.dataRegion.Release(dataPortion)
-		return
+		store.dataRegion.free(dataPortion)
+		return false, err
 	}
+	store.release(old)
+	return updated, nil
+}
 
-	return
+//p is not referred by index any more
+func (store *Storage) release(p portion.Portion) {
+	if v, ok := p.(portion.DataPortion); ok {
+		store.dataRegion.Release(v)
+	}
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return updated, err
-	}
-	return updated, store.put(lumpid, lumpdata)
+	return store.put(lumpid, lumpdata, true)
 }
 
 // padding payload with necessary zeros before and after, return:
@@ -523,56 +567,77 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
-	if !store.opened {
-		store.i.RUnlock()
-		return internalerror.StorageClosed
-	}
-	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	payload := lumpdata.AsBytes()
+	if uint64(startOffset)+uint64(len(payload)) > lump.LUMP_MAX_SIZE {
+		return errors.Wrap(internalerror.InvalidInput, "object is too big")
+	}
+	for {
+		updated, err := store.updateWithOffset(lumpid, startOffset, payload)
+		if updated || err != nil {
+			return err
+		}
 
-	if err != nil {
-		// Only one error possible, which is "object could not be found",
-		// meaning this is a new object. Padding necessary zeros and call `put`
+		// a new object. Padding necessary zeros and call `put`
+		if reservation > lump.LUMP_MAX_SIZE {
+			return errors.Wrap(internalerror.InvalidInput, "object is too big")
+		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
-		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		existed, err := store.put(lumpid, lump.NewLumpDataWithAb(data), false)
+		if !existed || err != nil {
+			return err
+		}
+		// someone else created it, update it
+	}
+}
+
+//return false if lumpid does not exist
+func (store *Storage) updateWithOffset(lumpid lump.LumpId, startOffset uint32, payload []byte) (updated bool, err error) {
+	store.i.Lock()
+	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	p, err := store.index.Get(lumpid)
+	if err != nil {
+		return false, nil
 	}
 
 	// update exist object; `reservation` is ignored in this case
 
 	switch v := p.(type) {
 	case portion.DataPortion:
-		return store.dataRegion.Update(v, startOffset, payload)
+		return true, store.dataRegion.Update(v, startOffset, payload)
 	case portion.JournalPortion:
 		// TODO?
-		return errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
+		return true, errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
 	default:
 		panic("never here")
 	}
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
 	store.jr.Lock()
 	defer store.jr.Unlock()
-	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	old, oldErr := store.index.Get(lumpid)
+	if err = store.journalRegion.RecordEmbed(store.index, lumpid, data); err != nil {
+		return false, err
+	}
+	store.release(old)
+	return oldErr == nil, nil
 }
 
 func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
+	updated, size, err = store.deleteIfExist(lumpid)
 	return
 }
 
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
+func (store *Storage) deleteIfExist(lumpid lump.LumpId) (bool, uint32, error) {
 
 	store.i.Lock()
 	defer store.i.Unlock()
@@ -587,17 +652,12 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	if doRecord {
-		//this removes the lump from index too
-		store.jr.Lock()
-		err = store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
-		if err != nil {
-			return false, 0, err
-		}
-	} else if ok := store.index.Delete(lumpid); ok == false {
-		//Because previous Get is ok, this Delete will surely success
-		panic("Delete after Get failed, something bad happend")
+	//this removes the lump from index too
+	store.jr.Lock()
+	err = store.journalRegion.RecordDelete(store.index, lumpid)
+	store.jr.Unlock()
+	if err != nil {
+		return false, 0, err
 	}
 
 	var releasedSize uint32
@@ -611,16 +671,6 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 
 	}
 
-	/*
-		switch v := p.(type) {
-		case portion.JournalPortion:
-			if doRecord {
-				return true, store.journalRegion.RecordDelete(store.index, lumpid)
-			}
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-	*/
 	return true, releasedSize, nil
 }
 
-- 
2.43.0


From 22575164fa4169646fe787cd73e65c2887d5e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 07/22] fix: offset reads and updates cover all touched blocks
 and respect the lump size

---
 storage/data_region.go | 70 ++++++++++++++++++++++--------------------
 storage/storage.go     |  7 ++++-
 2 files changed, 42 insertions(+), 35 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index e626f5e..686b61d 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -142,32 +142,37 @@ func (region *DataRegion) readBlocks(readOffset int64, blockCount int) ([]byte,
 	return ab.AsBytes(), nil
 }
 
+//read the blocks which contain [startOffset, startOffset+length) of dataPortion
+//return the offset of startOffset in data
+func (region *DataRegion) readRange(dataPortion portion.DataPortion, startOffset, length uint32) (
+	data []byte, readOffset int64, prefixPadding uint32, err error) {
+	offset, _ := dataPortion.ShiftBlockToBytes(region.block_size)
+	prefixPadding = startOffset % region.block_size.AsU32()
+	readOffset = int64(region.block_size.FloorAlign(offset + uint64(startOffset)))
+	data, err = region.readBlocks(readOffset, int(region.shiftBlockSize(prefixPadding+length)))
+	return
+}
+
 //thread safe
 func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
-	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	size, err := region.GetSize(dataPortion)
+	if err != nil {
+		return err
+	}
+	if uint64(startOffset)+uint64(len(payload)) > uint64(size) {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
-	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
-	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+	if len(payload) == 0 {
+		return nil
+	}
+	data, readOffset, prefixPadding, err := region.readRange(dataPortion, startOffset, uint32(len(payload)))
 	if err != nil {
 		return err
 	}
-	prefixPadding := startOffset % region.block_size.AsU32()
 	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
-		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
-			return errors.Wrap(internalerror.InvalidInput,
-				"object reserved capacity exceeded")
-		}
-	}
 
 	/*
 		_, err = region.nvm.Seek(int64(readOffset), io.SeekStart)
@@ -177,7 +182,7 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 		// data is already aligned since it's returned from AlignedBytes
 		_, err = region.nvm.Write(data)
 	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	_, err = region.nvm.WriteAt(data, readOffset)
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 	return err
@@ -295,35 +300,32 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 	startOffset uint32, length uint32) ([]byte, error) {
 
-	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
+	_, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
 
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	if uint64(startOffset)+uint64(length) > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
 	}
 
-	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
-	prefixPadding := startOffset % region.block_size.AsU32()
-
-	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+	//length could reach to the last block, prevent to read the padding data
+	size, err := region.GetSize(dataPortion)
 	if err != nil {
 		return nil, err
 	}
-	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
-		return data[prefixPadding : prefixPadding+length], nil
-	}
-
-	//In this case, if length is too big(reach to the last block), prevent to read the padding data
-
-	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
+	if startOffset > size {
 		return nil, errors.Wrap(internalerror.InvalidInput,
 			"startOffset > object length")
 	}
+	length = util.Min32(length, size-startOffset)
+	if length == 0 {
+		return []byte{}, nil
+	}
+
+	data, _, prefixPadding, err := region.readRange(dataPortion, startOffset, length)
+	if err != nil {
+		return nil, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-	return data[prefixPadding:realFileSize], nil
+	return data[prefixPadding : prefixPadding+length], nil
 }
diff --git a/storage/storage.go b/storage/storage.go
index fbdcfdc..2f71ddb 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -464,7 +464,12 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
-		return data[startOffset : startOffset+length], nil
+		//the same rule as dataRegion, the returned bytes could be less than length
+		size := uint32(len(data))
+		if startOffset > size {
+			return nil, errors.Wrap(internalerror.InvalidInput, "startOffset > object length")
+		}
+		return data[startOffset : startOffset+util.Min32(length, size-startOffset)], nil
 	default:
 		panic("never here")
 	}
-- 
2.43.0


From 79a32c3cce16404a0dc7199abffe00532595114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 08/22] fix: lock order of Close, queries after Close, unlocked
 readers and MaxSegmentSize of a full store

---
 storage/allocator/judy_allocator.go |  1 +
 storage/storage.go                  | 69 ++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/storage/allocator/judy_allocator.go b/storage/allocator/judy_allocator.go
index 84fcb7f..c6f07bd 100644
--- a/storage/allocator/judy_allocator.go
+++ b/storage/allocator/judy_allocator.go
@@ -201,6 +201,7 @@ func (alloc *JudyPortionAlloc) updateMaxSegmentSize() {
 	n, ok := alloc.sizeBasedTree.Last(math.MaxUint64)
 	if ok == false {
 		atomic.StoreUint64(&alloc.maxSegmentSize, uint64(0))
+		return
 	}
 	size := fromSizebasedToJudy(n).Len()
 	atomic.StoreUint64(&alloc.maxSegmentSize, uint64(size))
diff --git a/storage/storage.go b/storage/storage.go
index 2f71ddb..ab32152 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -126,13 +126,11 @@ func updateUsageInfo(store *Storage) {
 	ticker := time.NewTicker(time.Minute)
 	defer ticker.Stop()
 	//on start, record the capacity first
-	ctx := context.Background()
-	ostats.Record(ctx, x.JournalRegionMetric.Capacity.M(int64(store.journalRegion.Usage())))
+	store.recordJournalUsage()
 	for {
 		select {
 		case <-ticker.C:
-			ctx := context.Background()
-			ostats.Record(ctx, x.JournalRegionMetric.Capacity.M(int64(store.journalRegion.Usage())))
+			store.recordJournalUsage()
 			//TODO, update data region usage in the future
 		case <-store.updateCapacityStopper.ShouldStop():
 			return
@@ -141,6 +139,15 @@ func updateUsageInfo(store *Storage) {
 
 }
 
+func (store *Storage) recordJournalUsage() {
+	store.jr.Lock()
+	defer store.jr.Unlock()
+	if !store.opened {
+		return
+	}
+	ostats.Record(context.Background(), x.JournalRegionMetric.Capacity.M(int64(store.journalRegion.Usage())))
+}
+
 func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (*Storage, error) {
 
 	file, err := nvm.CreateIfAbsent(path, capacity)
@@ -219,6 +226,8 @@ func (store *Storage) Header() nvm.StorageHeader {
 }
 
 func (store *Storage) SetAutomaticGcMode(gc bool) {
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	store.journalRegion.SetAutomaticGcMode(gc)
 }
 
@@ -265,16 +274,27 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 }
 
 func (store *Storage) Usage() StorageUsage {
+	store.i.RLock()
+	defer store.i.RUnlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	blockSize := uint64(store.Header().BlockSize.AsU16())
-	return StorageUsage{
-		JournalCapacity:   store.Header().JournalRegionSize,
-		DataCapacity:      store.Header().DataRegionSize,
-		FileCounts:        store.index.Count(),
-		DataFreeBytes:     store.dataRegion.FreeBlocks() * blockSize,
-		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+	usage := StorageUsage{
+		JournalCapacity: store.Header().JournalRegionSize,
+		DataCapacity:    store.Header().DataRegionSize,
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
+	if !store.opened {
+		return usage
+	}
+	usage.FileCounts = store.index.Count()
+	usage.DataFreeBytes = store.dataRegion.FreeBlocks() * blockSize
+	usage.JournalUsageBytes = store.journalRegion.Usage()
+	//the last LUMP_DATA_TRAILER_SIZE bytes of a segment can not be used
+	if segmentSize := store.alloc.MaxSegmentSize() * blockSize; segmentSize > 0 {
+		usage.MaxSegmentSize = util.Min(lump.LUMP_MAX_SIZE, segmentSize-uint64(LUMP_DATA_TRAILER_SIZE))
+	}
+	return usage
 }
 
 func (store *Storage) MinId() (lump.LumpId, bool) {
@@ -349,6 +369,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
@@ -694,11 +717,19 @@ func (store *Storage) GetAllocationStatus() []float64 {
 		return nil
 	}
 
+	store.i.RLock()
+	defer store.i.RUnlock()
+	if !store.opened {
+		return nil
+	}
+
 	total := store.storageHeader.DataRegionSize / uint64(blockSizeBytes)
 	if total/n > 12800 {
 		total = 12800 * n //max size is 50GB
 	}
 
+	store.dataRegion.Lock()
+	defer store.dataRegion.Unlock()
 	return store.alloc.GetAllocationBitStatus(n, total)
 }
 
@@ -725,20 +756,26 @@ func (store *Storage) journalSync() {
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
+	if store.closeOnce() {
+		//will wait goroutine's end, the goroutine needs the locks
+		store.updateCapacityStopper.Stop()
+	}
+}
+
+func (store *Storage) closeOnce() bool {
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
-		return
+		return false
 	}
-	fmt.Printf("close")
 	store.opened = false
-	store.updateCapacityStopper.Stop() //will wait goroutine's end
 	store.journalSync()
 	store.innerNVM.Close()
 	store.index.Free()
 	store.alloc.Free()
+	return true
 }
 
 func (store *Storage) RunSideJobOnce(countSideJob int) {
-- 
2.43.0


From 24f18ddbd3ea43e3da26762ee7c321db5d500f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 09/22] fix: snapshot image survives concurrent writes,
 crashes, deletion and reopening

---
 nvm/file.go    |   8 +-
 nvm/snapnvm.go | 438 ++++++++++++++++++++++++++-----------------------
 2 files changed, 239 insertions(+), 207 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..1cdbdb7 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -205,14 +205,14 @@ func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 
 //read,write threadSafe
 func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
-	if !block.Min().IsAligned(uint64(off)) {
-		return int(off), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
+	if off < 0 || !block.Min().IsAligned(uint64(off)) {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
 	}
 
-	maxLen := nvm.Capacity() - uint64(off)
-	if maxLen == 0 {
+	if uint64(off) >= nvm.Capacity() {
 		return 0, io.EOF
 	}
+	maxLen := nvm.Capacity() - uint64(off)
 	bufLen := uint64(len(buf))
 	if !block.Min().IsAligned(uint64(bufLen)) {
 		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..6466151 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -1,12 +1,13 @@
 package nvm
 
 import (
-	_ "bytes"
+	"bytes"
 	"encoding/binary"
-	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -28,6 +29,8 @@ var (
 	DEFAULT_REGION_SHIFT uint16 = 25
 )
 
+const SNAP_SUFFIX = "_lusf.snapshot"
+
 //Default RegionShift is 25 : 1<<25 == 32MB
 type BackingFileHeader struct {
 	MajorVersion uint16
@@ -71,22 +74,18 @@ func (entry BitmapEntry) WriteTo(writer io.Writer) (err error) {
 	return
 }
 
-func ReadRecordFrom(reader io.Reader) BitmapEntry {
-	var buf [4]byte
-	if _, err := io.ReadFull(reader, buf[:]); err != nil {
-		panic("can not read from disk: from ReadRecordFrom")
+func ReadRecordFrom(reader io.Reader) (bitmap BitmapEntry, err error) {
+	var buf [12]byte
+	if _, err = io.ReadFull(reader, buf[:]); err != nil {
+		return
 	}
-	checksum := binary.BigEndian.Uint32(buf[:])
-	var originOffset uint32
-	var snapOffset uint32
-	binary.Read(reader, binary.BigEndian, &originOffset)
-	binary.Read(reader, binary.BigEndian, &snapOffset)
-	bitmap := BitmapEntry{OriginOffset: originOffset, SnapOffset: snapOffset}
+	bitmap.OriginOffset = binary.BigEndian.Uint32(buf[4:8])
+	bitmap.SnapOffset = binary.BigEndian.Uint32(buf[8:])
 	//check entry's crc
-	if bitmap.CheckSum() != checksum {
-		panic("check sum failed")
+	if bitmap.CheckSum() != binary.BigEndian.Uint32(buf[:4]) {
+		err = errors.Wrap(internalerror.StorageCorrupted, "check sum failed")
 	}
-	return bitmap
+	return
 }
 
 func (self *BackingFileHeader) WriteTo(writer io.Writer) (err error) {
@@ -169,11 +168,8 @@ func readBackingFileHeaderFrom(reader io.Reader) (header *BackingFileHeader, err
 	reader = io.LimitReader(reader, 512)
 	//read magic number;
 	var magicNumber [4]byte
-	if n, err := reader.Read(magicNumber[:]); err != nil {
+	if _, err := io.ReadFull(reader, magicNumber[:]); err != nil {
 		return nil, err
-	} else if n != len(magicNumber) {
-		return nil, errors.Wrap(internalerror.InvalidInput, "read magic number")
-
 	} else if magicNumber != SNAP_MAGIC_NUMBER {
 		return nil, errors.Wrap(internalerror.InvalidInput, "read magic number")
 	}
@@ -251,6 +247,7 @@ func readBackingFileHeaderFrom(reader io.Reader) (header *BackingFileHeader, err
 		RegionShift:  regionShift,
 		MaxCapacity:  maxCapacity,
 		JournalSize:  journalSize,
+		CreateTime:   createTime,
 		RawCapacity:  rawCapacity,
 	}, nil
 }
@@ -283,12 +280,28 @@ func (bf *BackingFile) Sync() error {
 	return bf.file.Sync()
 }
 
-func (bf *BackingFile) Delete() {
+//Delete returns after the file is removed from disk: the origin file is not copied any more,
+//so the backing file must not come back after crash
+func (bf *BackingFile) Delete() error {
 	bf.Lock()
 	defer bf.Unlock()
-	if err := os.Remove(bf.fileName); err != nil {
-		panic("delete failed")
+	if err := os.Remove(bf.fileName); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := syncDirectory(bf.fileName); err != nil {
+		return err
 	}
+	return bf.file.Close()
+}
+
+//sync the directory of fileName
+func syncDirectory(fileName string) error {
+	dir, err := os.Open(filepath.Dir(fileName))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
 }
 
 //give [start, end) of the buf
@@ -343,17 +356,16 @@ func (bf *BackingFile) ReadFromOffset(buf []byte, offset uint32) (int, error) {
 //WriteOffset would write buf into backing file.
 //buf's size must be regionSize,
 //offset is buf's offset in origin file
-//WriteOffset write journal first, and then write the buf
-func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
+//WriteOffset writes the buf first, and then writes the journal entry which refers to it.
+func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	bf.Lock()
 	defer bf.Unlock()
 	if uint64(len(buf)) != bf.regionSize {
-		//panic("buf is small, i quit")
-		panic(fmt.Sprintf("buf is small, i quit, regsionSize is %d, len of buf is %d\n", bf.regionSize, len(buf)))
+		return errors.Errorf("buf is small, i quit, regsionSize is %d, len of buf is %d\n", bf.regionSize, len(buf))
 	}
 	//pos is the
 	if _, have := bf.tree.Get(uint64(offset)); have {
-		panic(fmt.Sprintf("offset is %d, we already snapshoted this", offset))
+		return errors.Errorf("offset is %d, we already snapshoted this", offset)
 	}
 	start := bf.dataEnd
 	//TODO convert regionShift
@@ -361,33 +373,34 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		OriginOffset: uint32(offset),
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
+	//Write data
+	if _, err := bf.file.WriteAt(buf, int64(start)); err != nil {
+		return errors.Wrap(err, "failed to write backing file")
+	}
+	if err := bf.file.Sync(); err != nil {
+		return errors.Wrap(err, "failed to sync backing file")
+	}
 	//Write journal
-	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
-	if err := entry.WriteTo(bf.file); err != nil {
-		panic("write failed")
+	entryBuf := new(bytes.Buffer)
+	if err := entry.WriteTo(entryBuf); err != nil {
+		return err
 	}
-	//Write data
-	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
-		panic("im panic")
+	if _, err := bf.file.WriteAt(entryBuf.Bytes(), int64(bf.JournalEnd)); err != nil {
+		return errors.Wrap(err, "failed to write backing file")
 	}
-	bf.dataEnd += bf.regionSize
-	if _, err := bf.file.Write(buf); err != nil {
-		panic("write panic")
+	if err := bf.file.Sync(); err != nil {
+		return errors.Wrap(err, "failed to sync backing file")
 	}
 
+	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
-	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-	bf.file.Sync()
+	return nil
 }
 
-func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
+func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (bf *BackingFile, err error) {
 	uuidFile := uuid.NewV4()
-	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
-	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
-	if err != nil {
-		return nil, err
-	}
+	fileName := prefix + "_" + uuidFile.String() + SNAP_SUFFIX
 	header := BackingFileHeader{
 		MajorVersion: SNAP_MAJOR_VERSION,
 		MinorVersion: SNAP_MINOR_VERSION,
@@ -398,14 +411,37 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		CreateTime:   time.Now().Unix(),
 		RawCapacity:  currentCapacity,
 	}
-
-	if err = header.WriteTo(file); err != nil {
+	headerBuf := new(bytes.Buffer)
+	if err = header.WriteTo(headerBuf); err != nil {
 		return nil, err
 	}
 
-	file.Sync()
+	//a backing file has its name only after its header is complete on disk
+	tmpName := fileName + ".tmp"
+	file, err := os.OpenFile(tmpName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
+	if err != nil {
+		return nil, err
+	}
+	defer func() {
+		if err != nil {
+			file.Close()
+			os.Remove(tmpName)
+			os.Remove(fileName)
+		}
+	}()
+	if _, err = file.Write(headerBuf.Bytes()); err != nil {
+		return nil, err
+	}
+	if err = file.Sync(); err != nil {
+		return nil, err
+	}
+	if err = os.Rename(tmpName, fileName); err != nil {
+		return nil, err
+	}
+	if err = syncDirectory(fileName); err != nil {
+		return nil, err
+	}
 
-	fmt.Printf("Creating Backingfile journalSize is %d, dataStart At %d\n", header.JournalSize, 512+header.JournalSize)
 	return &BackingFile{
 		file:           file,
 		JournalStart:   512,
@@ -423,39 +459,45 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 }
 
 func OpenBackingFile(fileName string) (*BackingFile, error) {
-	file, err := os.OpenFile(fileName, os.O_RDWR, 0755)
+	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, errors.Wrapf(internalerror.InvalidInput, "failed to open backfile %v", fileName)
 	}
 	var header *BackingFileHeader
 	header, err = readBackingFileHeaderFrom(file)
 	if err != nil {
-		panic(fmt.Sprint(err.Error()))
+		file.Close()
+		return nil, err
 	}
 
-	fmt.Printf("header is %+v\n", header)
-
 	//read all the journalEntry to
 	tree := judy.JudyL{}
 
 	var dataStart uint64 = 512 + header.JournalSize //unit bytes
-	info, _ := file.Stat()
+	info, err := file.Stat()
+	if err != nil {
+		file.Close()
+		return nil, err
+	}
 	var dataEnd = util.Max(dataStart, uint64(info.Size()))
 
-	n := (dataEnd - dataStart) >> header.RegionShift
+	max := (dataEnd - dataStart) >> header.RegionShift
 
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
-	if _, err = file.Seek(512, io.SeekStart); err != nil {
-		panic("seek failed")
-	}
-	for i := uint64(0); i < n; i++ {
-		entry := ReadRecordFrom(file)
-		entryDataEnd := dataStart + uint64(entry.SnapOffset+1)*(1<<header.RegionShift)
-		dataEnd = util.Max(dataEnd, entryDataEnd)
+	//an entry is written after its data. if the process crashed between the two writes,
+	//the last region has no entry
+	reader := io.NewSectionReader(file, 512, int64(header.JournalSize))
+	n := uint64(0)
+	for ; n < max; n++ {
+		entry, err := ReadRecordFrom(reader)
+		if err != nil || uint64(entry.SnapOffset) != n {
+			break
+		}
 		//fmt.Printf("entry %d %d\n", entry.OriginOffset, entry.SnapOffset)
 		tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
 	}
+	dataEnd = dataStart + n<<header.RegionShift
 	journalEnd := 512 + 12*n
 
 	//fmt.Printf(header.UUID.String())
@@ -477,6 +519,7 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 
 type SnapshotReader struct {
 	snap          *SnapNVM
+	backFile      *BackingFile //the snapshot being read
 	offset        uint64
 	buf           *block.AlignedBytes
 	waterHighMark int
@@ -487,6 +530,7 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	ab := block.NewAlignedBytes(int(snap.myBackfile.RegionSize()), block.Min())
 	return &SnapshotReader{
 		snap:          snap,
+		backFile:      snap.myBackfile,
 		buf:           ab,
 		offset:        0,
 		waterHighMark: 0,
@@ -496,101 +540,77 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 
 //read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
-	}
+	var abs int64
 	switch whence {
-	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
-	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
-	case 2:
-		panic("not supported so far")
+	case io.SeekStart:
+		abs = offset
+	case io.SeekCurrent:
+		//the bytes in local buffer are not read yet
+		abs = int64(self.offset) - int64(self.waterHighMark-self.waterLowMark) + offset
+	case io.SeekEnd:
+		abs = int64(self.backFile.rawCapacity) + offset
 	default:
 		return 0, errors.New("failed to seek")
 	}
+	if abs < 0 || abs > int64(self.backFile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", abs, self.backFile.rawCapacity)
+	}
+	self.waterHighMark = 0
+	self.waterLowMark = 0
+	self.offset = uint64(abs)
+	return abs, nil
 }
 
-//read thread-safe
-func (self *SnapshotReader) Read(p []byte) (n int, err error) {
+//read the whole region which contains self.offset into local buffer
+func (self *SnapshotReader) fill() (err error) {
+	//a write could move the region from origin file to backing file, lock write
+	self.snap.RLock()
+	defer self.snap.RUnlock()
+	if self.snap.myBackfile != self.backFile {
+		return errors.New("snapshot is deleted")
+	}
+	regionSize := self.backFile.RegionSize()
+	start := self.offset / regionSize * regionSize
+	maxLen := util.Min(self.backFile.rawCapacity-start, regionSize)
 
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
+	var n int
+	onBacking, onOrigin := self.backFile.GetCopyOffset(start, start+regionSize)
+	if len(onBacking) == 1 {
+		self.buf.Resize(uint32(regionSize))
+		n, err = self.backFile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
+	} else {
+		self.buf.Resize(uint32(maxLen))
+		n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), int64(uint64(onOrigin[0])*regionSize))
+	}
+	if n < int(maxLen) {
+		if err == nil || err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return err
+	}
+	self.waterHighMark = int(maxLen)
+	self.waterLowMark = int(self.offset % regionSize)
+	self.offset = start + maxLen
+	return nil
+}
 
-	regionSize := self.snap.myBackfile.RegionSize()
-	/* local buffer is empty */
-	if uint64(len(p)) > self.snap.myBackfile.RegionSize() {
-		panic("Read data too big")
+//read thread-safe
+func (self *SnapshotReader) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
 	}
-	start := self.offset / regionSize * regionSize
-	maxLen := util.Min(self.snap.myBackfile.rawCapacity-start, regionSize)
-	//read the whole region size
+	/* local buffer is empty */
 	if self.waterHighMark == self.waterLowMark {
-
-		if self.offset == self.snap.myBackfile.rawCapacity {
+		if self.offset >= self.backFile.rawCapacity {
 			return 0, io.EOF
 		}
-		onBacking, onOrigin := self.snap.myBackfile.GetCopyOffset(start, start+regionSize)
-		/*
-			fmt.Printf("onBacking is %+v, onOrigin is %+v, offset is %d, start is %d\n",
-				onBacking, onOrigin, self.offset, start)
-		*/
-
-		if len(onBacking) == 1 {
-			self.buf.Resize(uint32(self.snap.myBackfile.regionSize))
-			n, err = self.snap.myBackfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
-			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else if len(onOrigin) == 1 {
-			self.buf.Resize(uint32(maxLen))
-			/*
-				if _, err = self.snap.originFile.Seek(int64(uint64(onOrigin[0])*regionSize), io.SeekStart); err != nil {
-					panic("failed to seek")
-				}
-				n, err = io.ReadFull(self.snap.originFile, self.buf.AsBytes())
-			*/
-			start := int64(uint64(onOrigin[0]) * regionSize)
-			n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), start)
-			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
-			//if originFile is shorter than expected
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else {
-			panic("bad happend")
+		if err = self.fill(); err != nil {
+			return 0, err
 		}
-		self.waterHighMark = int(util.Min(uint64(maxLen), uint64(n)))
-		self.waterLowMark = int(self.offset % regionSize)
-		self.offset = start + uint64(self.waterHighMark)
-
-	}
-	/*
-		fmt.Printf("waterHighMark %d, waterLowMark %d, offset %d\n",
-			self.waterHighMark, self.waterLowMark, self.offset)
-	*/
-	l := len(p)
-	if l < self.waterHighMark-self.waterLowMark {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:self.waterLowMark+l])
-		self.waterLowMark += l
-		return l, nil
-	} else {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:])
-		n := self.waterHighMark - self.waterLowMark
-		self.waterLowMark += n
-		return n, nil
 	}
+	n = copy(p, self.buf.AsBytes()[self.waterLowMark:self.waterHighMark])
+	self.waterLowMark += n
+	return n, nil
 }
 
 type SnapNVM struct {
@@ -611,22 +631,21 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	var err error
 	fileDirectory := filepath.Dir(originFile.path)
 	var myBackFile *BackingFile = nil
-	///a/b/c/d/EXXX.lusf => EXXX
-	//../../../ASDF.lusf => ASDF
-	baseName := filepath.Base(originFile.path)
-	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
-	//fmt.Println(pattern)
-	matches, err := filepath.Glob(pattern)
-	//fmt.Println(matches)
+	//the backing file is in the same directory
+	///a/b/c/d/EXXX.lusf => /a/b/c/d/EXXX
+	//../../../ASDF.lusf => ../../../ASDF
+	baseName := strings.TrimSuffix(filepath.Base(originFile.path), ".lusf")
+	prefix := filepath.Join(fileDirectory, baseName)
+	matches, err := findBackingFiles(fileDirectory, baseName)
 	if err != nil {
-		panic(err.Error())
+		return nil, err
 	}
 	if len(matches) == 0 {
 		//myBackFile, err = CreateBackingFile(prefix, uint64(originFile.RawSize()))
 	} else if len(matches) == 1 {
-		fmt.Printf("found snapshot file %s\n", matches[0])
 		myBackFile, err = OpenBackingFile(matches[0])
+	} else {
+		err = errors.Wrapf(internalerror.InvalidInput, "more than one snapshot: %v", matches)
 	}
 	if err != nil {
 		return nil, err
@@ -646,6 +665,29 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	return snapNVM, nil
 }
 
+//find all the files whose name is {baseName}_{uuid}_lusf.snapshot
+func findBackingFiles(directory string, baseName string) (matches []string, err error) {
+	infos, err := ioutil.ReadDir(directory)
+	if err != nil {
+		return nil, err
+	}
+	for _, info := range infos {
+		name := info.Name()
+		if !strings.HasPrefix(name, baseName+"_") || !strings.HasSuffix(name, SNAP_SUFFIX) {
+			continue
+		}
+		middle := len(name) - len(SNAP_SUFFIX)
+		if middle <= len(baseName) {
+			continue
+		}
+		id := name[len(baseName)+1 : middle]
+		if uid, err := uuid.FromString(id); err == nil && uid.String() == id {
+			matches = append(matches, filepath.Join(directory, name))
+		}
+	}
+	return matches, nil
+}
+
 func (self *SnapNVM) RLock() {
 	self.rawSnapNVM.mu.RLock()
 }
@@ -662,28 +704,39 @@ func (self *SnapNVM) Unlock() {
 	self.rawSnapNVM.mu.Unlock()
 }
 
+//copy the regions, which are going to be overwritten by [realPos, realPos+size), to the backing file
+//realPos is the offset in the raw file
+func (self *SnapNVM) copyOnWrite(realPos uint64, size int) error {
+	backFile := self.rawSnapNVM.myBackfile
+	if backFile == nil || size == 0 {
+		return nil
+	}
+	rawFile := self.rawSnapNVM.originFile
+	ab := self.rawSnapNVM.ab.AsBytes()
+
+	_, onOrigin := backFile.GetCopyOffset(realPos, realPos+uint64(size))
+	for i := 0; i < len(onOrigin); i++ {
+		n, err := util.ReadFull(rawFile, ab, int64(uint64(onOrigin[i])*backFile.RegionSize()))
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return errors.Wrap(err, "failed to read the origin file")
+		}
+		//although n could be less than regionSize at the end of file, we still write
+		//the whole regionSize to backfile
+		for j := n; j < len(ab); j++ {
+			ab[j] = 0
+		}
+		if err = backFile.WriteOffset(ab, onOrigin[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
-	realPos := self.originFile.ViewStart() + uint64(off)
-	if self.rawSnapNVM.myBackfile != nil {
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if err = self.copyOnWrite(self.originFile.ViewStart()+uint64(off), len(buf)); err != nil {
+		return 0, err
 	}
 	return self.originFile.WriteAt(buf, off)
 }
@@ -692,34 +745,9 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
 	start := self.originFile.Position() //start is a relative position
-	realPos := self.originFile.ViewStart() + start
-	if self.rawSnapNVM.myBackfile != nil {
-
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-		/*
-			fmt.Printf("start backup for %+v, start is %d , realPos is start:end is %d:%d \n",
-				onOrigin, start, realPos, realPos+uint64(len(buf)))
-		*/
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-
-			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if err = self.copyOnWrite(self.originFile.ViewStart()+start, len(buf)); err != nil {
+		return 0, err
 	}
-	self.originFile.Seek(int64(start), io.SeekStart)
 	return self.originFile.Write(buf)
 }
 
@@ -757,7 +785,10 @@ func (self *SnapNVM) Close() error {
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
@@ -806,7 +837,9 @@ func (self *SnapNVM) DeleteSnapshot() error {
 		return errors.Errorf("can not create snapshot in splited NVM")
 	}
 	if self.myBackfile != nil {
-		self.myBackfile.Delete()
+		if err := self.myBackfile.Delete(); err != nil {
+			return err
+		}
 		self.myBackfile = nil
 	}
 	return nil
@@ -827,7 +860,6 @@ func (self *SnapNVM) createSnapshotIfNeeded() (err error) {
 	size := self.originFile.Capacity()
 
 	self.myBackfile, err = CreateBackingFile(self.prefix, uint64(size), uint64(self.originFile.RawSize()))
-	fmt.Printf("backingfile is %+v\n", self.myBackfile)
 	if err != nil {
 		return err
 	}
@@ -853,8 +885,8 @@ func (self *SnapNVM) Position() uint64 {
 }
 
 func (self *SnapNVM) RawSize() int64 {
-	self.Lock()
-	self.Unlock()
+	self.RLock()
+	defer self.RUnlock()
 	return self.rawSnapNVM.originFile.RawSize()
 }
 
-- 
2.43.0


From a7f3733aa7ea6d4ba40b37807bd9d097c7350cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 10/22] fix: NVM views stay inside their range and
 LumpId.Compare must not overflow

---
 lump/lump.go                  |  9 ++++++++-
 nvm/file.go                   | 16 +++++++++++++---
 nvm/memory.go                 | 13 +++++++++++--
 storage/journal/nvm_buffer.go |  3 +++
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/lump/lump.go b/lump/lump.go
index 262b649..7c2b24d 100644
--- a/lump/lump.go
+++ b/lump/lump.go
@@ -66,7 +66,14 @@ func (id LumpId) Write(w io.Writer) (int, error) {
 }
 
 func (left LumpId) Compare(right LumpId) int {
-	return int(left.lo - right.lo)
+	switch {
+	case left.lo < right.lo:
+		return -1
+	case left.lo > right.lo:
+		return 1
+	default:
+		return 0
+	}
 }
 
 func EmptyLump() LumpId {
diff --git a/nvm/file.go b/nvm/file.go
index 1cdbdb7..960e620 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -161,6 +161,9 @@ func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolati
 	if block.Min().CeilAlign(uint64(position)) != position {
 		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in split", position)
 	}
+	if position > nvm.Capacity() {
+		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "split position :%d is too big", position)
+	}
 
 	//TODO
 	leftNVM := &FileNVM{
@@ -200,7 +203,7 @@ func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 	realFilePosition := nvm.viewStart + uint64(abs)
 
 	nvm.cursor_position = realFilePosition
-	return offset, nil
+	return abs, nil
 }
 
 //read,write threadSafe
@@ -243,6 +246,10 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 	}
 
 	if n < int(len) {
+		//the file is shorter than capacity, the rest of the file is a hole
+		for i := n; i < int(len); i++ {
+			buf[i] = 0
+		}
 		nvm.file.Seek(int64(newPosition), io.SeekStart)
 		nvm.cursor_position = newPosition
 		return int(len), nil
@@ -254,8 +261,11 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 
 func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 
-	if !block.Min().IsAligned(uint64(offset)) {
-		return int(offset), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+	if offset < 0 || !block.Min().IsAligned(uint64(offset)) {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+	}
+	if uint64(offset) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "offset :%d is too big", offset)
 	}
 
 	realPos := int64(nvm.viewStart) + offset
diff --git a/nvm/memory.go b/nvm/memory.go
index 61cdb1d..e858c48 100644
--- a/nvm/memory.go
+++ b/nvm/memory.go
@@ -51,6 +51,9 @@ func (memory *MemoryNVM) Split(p uint64) (sp1 NonVolatileMemory, sp2 NonVolatile
 		return nil, nil, internalerror.InvalidInput
 	}
 
+	if p > memory.Capacity() {
+		return nil, nil, internalerror.InvalidInput
+	}
 	l, err := NewFromVec(memory.vec[0:p])
 	if err != nil {
 		return nil, nil, internalerror.InvalidInput
@@ -85,8 +88,8 @@ func (memory *MemoryNVM) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (memory *MemoryNVM) Read(buf []byte) (n int, err error) {
-	memory.RLock()
-	defer memory.RUnlock()
+	memory.Lock()
+	defer memory.Unlock()
 	if memory.position >= uint64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -120,6 +123,9 @@ func (memory *MemoryNVM) BlockSize() block.BlockSize {
 func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 	memory.RLock()
 	defer memory.RUnlock()
+	if off < 0 {
+		return 0, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -130,6 +136,9 @@ func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 func (memory *MemoryNVM) WriteAt(p []byte, off int64) (n int, err error) {
 	memory.Lock()
 	defer memory.Unlock()
+	if off < 0 {
+		return 0, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 4bd154d..3c0bea9 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -63,6 +63,9 @@ func (jb *JournalNvmBuffer) Seek(offset int64, whence int) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
+	if abs < 0 {
+		return -1, internalerror.InvalidInput
+	}
 	jb.position = uint64(abs)
 	return abs, nil
 
-- 
2.43.0


From 0d13f538363589f6cb1a95813d7406faff14006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 11/22] fix: failed create and open report errors and release
 the file

---
 nvm/file.go        | 16 +++++++++--
 nvm/header.go      | 15 +++++-----
 storage/storage.go | 71 ++++++++++++++++++++++++++++++----------------
 3 files changed, 68 insertions(+), 34 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 960e620..b820a22 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -23,7 +23,7 @@ type FileNVM struct {
 
 func fileExists(path string) bool {
 	info, err := os.Stat(path)
-	if os.IsNotExist(err) {
+	if err != nil {
 		return false
 	}
 	return !info.IsDir()
@@ -45,9 +45,13 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	var flags int
 	var f *os.File
 	var err error
-	flags = os.O_CREATE | os.O_RDWR
+	//someone else could create the file after the check
+	flags = os.O_CREATE | os.O_EXCL | os.O_RDWR
 
 	if f, err = openFileWithDirectIO(path, flags, 0755); err != nil {
+		if os.IsExist(err) {
+			return nil, os.ErrExist
+		}
 		return nil, errors.Wrapf(err, "failed to open file %s\n", path)
 	}
 	/*
@@ -74,6 +78,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
@@ -82,6 +87,12 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 		os.Remove(path)
 		return nil, err
 	}
+	//the file must not be lost after its content is synced
+	if err = syncDirectory(path); err != nil {
+		f.Close()
+		os.Remove(path)
+		return nil, err
+	}
 
 	return &FileNVM{
 		file:            f,
@@ -120,6 +131,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	}
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 	err = nil
diff --git a/nvm/header.go b/nvm/header.go
index 5c230f8..d22c5ea 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -74,11 +74,8 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 
 	//magic number
 	var magicNumber [4]byte
-	if n, err := reader.Read(magicNumber[:]); err != nil {
+	if _, err := io.ReadFull(reader, magicNumber[:]); err != nil {
 		return nil, err
-	} else if n != len(magicNumber) {
-		return nil, errors.Wrap(internalerror.InvalidInput, "read magic number")
-
 	} else if magicNumber != MAGIC_NUMBER {
 		return nil, errors.Wrap(internalerror.InvalidInput, "read magic number")
 	}
@@ -121,10 +118,8 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 	// UUID
 	var uuidBuf [16]byte
 	var fileUUID uuid.UUID
-	if n, err := reader.Read(uuidBuf[:]); err != nil {
+	if _, err := io.ReadFull(reader, uuidBuf[:]); err != nil {
 		return nil, err
-	} else if n != len(uuidBuf) {
-		return nil, internalerror.InvalidInput
 	}
 
 	fileUUID, err := uuid.FromBytes(uuidBuf[:])
@@ -147,6 +142,12 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 		return nil, internalerror.InvalidInput
 	}
 
+	//the journal has its header and one sector at least
+	if !blockSize.IsAligned(journalRegionSize) || !blockSize.IsAligned(dataRegionSize) ||
+		journalRegionSize < 2*uint64(blockSize.AsU16()) {
+		return nil, internalerror.InvalidInput
+	}
+
 	//EOF
 	var buf [1]byte
 	if _, err = reader.Read(buf[:]); err != io.EOF {
diff --git a/storage/storage.go b/storage/storage.go
index ab32152..761a503 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"os"
 	"sync"
 	"time"
 
@@ -63,9 +64,18 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
+	store, err := openStorage(snapNVM, header)
+	if err != nil {
+		snapNVM.Close()
+		return nil, err
+	}
+	return store, nil
+}
 
+func openStorage(snapNVM *nvm.SnapNVM, header *nvm.StorageHeader) (*Storage, error) {
 	index := lumpindex.NewIndex()
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
 
@@ -154,71 +164,82 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	if err != nil {
 		return nil, err
 	}
-	snapNVM, err := nvm.NewSnapshotNVM(file)
+	err = formatStorage(file, journal_ratio)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
+		//do not leave a half created storage
+		os.Remove(path)
 		return nil, err
 	}
 
+	return OpenCannylsStorage(path)
+}
+
+func formatStorage(file *nvm.FileNVM, journal_ratio float64) error {
 	headBuf := new(bytes.Buffer)
-	header := makeHeader(snapNVM, journal_ratio)
+	header, err := makeHeader(file, journal_ratio)
+	if err != nil {
+		return err
+	}
 
 	if err = header.WriteHeaderRegionTo(headBuf); err != nil {
-		return nil, err
+		return err
 	}
 	//now headBuf's len should be at least 512
 
-	journal.InitialJournalRegion(headBuf, snapNVM.BlockSize())
+	journal.InitialJournalRegion(headBuf, file.BlockSize())
 	//headbuf should be header(512) + (journal header)512 + (journal)512
 
-	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
+	alignedBufHead := block.FromBytes(headBuf.Bytes(), file.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
-
-	if err = snapNVM.Sync(); err != nil {
-		return nil, err
+	if _, err = file.Write(alignedBufHead.AsBytes()); err != nil {
+		return err
 	}
-	snapNVM.Close()
 
-	return OpenCannylsStorage(path)
+	return file.Sync()
 }
 
-func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHeader {
+func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (*nvm.StorageHeader, error) {
 
 	//total size
 	totalSize := file.Capacity()
+	blockSize := uint64(file.BlockSize().AsU16())
 	headerSize := file.BlockSize().CeilAlign(uint64(nvm.FULL_HEADER_SIZE))
 
 	//check capacity
-	if totalSize < headerSize+uint64(file.BlockSize().AsU16()*3) {
-		panic("file size is too small")
+	if totalSize < headerSize+blockSize*3 {
+		return nil, errors.Wrap(internalerror.InvalidInput, "file size is too small")
 	}
 
 	//check journal size
+	if !(journal_ratio >= 0 && journal_ratio <= 1) {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "journal ratio %v is wrong", journal_ratio)
+	}
 	tmp := float64(file.Capacity()) * journal_ratio
 	journalSize := file.BlockSize().CeilAlign(uint64(tmp))
-	if journalSize > MAX_JOURNAL_REGION_SIZE {
-		panic("journal size is too big")
-	}
 
-	if journalSize < uint64(file.BlockSize().AsU16()*2) {
-		journalSize = uint64(file.BlockSize().AsU16() * 2)
+	if journalSize < blockSize*2 {
+		journalSize = blockSize * 2
+	}
+	//at least one block for data region
+	journalSize = util.Min(journalSize, totalSize-headerSize-blockSize)
+	if journalSize > MAX_JOURNAL_REGION_SIZE {
+		return nil, errors.Wrap(internalerror.InvalidInput, "journal size is too big")
 	}
 
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
-		panic(fmt.Sprintf("data size is too big: %d", dataSize))
-	}
-
-	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
+		return nil, errors.Wrapf(internalerror.InvalidInput, "data size is too big: %d", dataSize)
 	}
 
 	header := nvm.DefaultStorageHeader()
 	header.BlockSize = file.BlockSize()
 	header.JournalRegionSize = journalSize
 	header.DataRegionSize = dataSize
-	return *header
+	return header, nil
 }
 
 func (store *Storage) Header() nvm.StorageHeader {
-- 
2.43.0


From 31b420ab859f2f058077f3e7dc230645fea1ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 12/22] fix: kanils reads whole files, reports Dump errors and
 resizes durably

---
 cmd/kanils/main.go | 33 +++++++++++++++++----------------
 nvm/snapnvm.go     |  4 ++++
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e21fab1..50ac51a 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -60,11 +60,20 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if err != nil {
 		return err
 	}
-	defer fileNVM.Close()
+	//the header could belong to a snapshot
+	snapNVM, err := nvm.NewSnapshotNVM(fileNVM)
+	if err != nil {
+		fileNVM.Close()
+		return err
+	}
+	defer snapNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
 	}
+	if newSize > nvm.MAX_DATA_REGION_SIZE {
+		return errors.Errorf("new Size %d is too big", newSize)
+	}
 	fmt.Printf("setting new size to %d\n", newSize)
 	header.DataRegionSize = newSize
 
@@ -76,13 +85,13 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), fileNVM.BlockSize())
 	alignedBufHead.Align()
 	//now headBuf's len should be at least 512
-	if _, err = fileNVM.Seek(0, io.SeekStart); err != nil {
+	if _, err = snapNVM.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
-	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return nil
+	return snapNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
@@ -143,7 +152,7 @@ func dumpCannyls(c *cli.Context) (err error) {
 	for _, id := range ids {
 		d, err := store.Get(id)
 		if err != nil {
-			break
+			return err
 		}
 
 		fmt.Printf("%s :%s\n", id.String(), string(d))
@@ -318,6 +327,7 @@ func putCannyls(c *cli.Context) (err error) {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		info, err := file.Stat()
 		if err != nil {
 			return err
@@ -346,17 +356,8 @@ func putCannyls(c *cli.Context) (err error) {
 }
 
 func readUpData(r io.Reader, lumpdata lump.LumpData) error {
-	s := lumpdata.AsBytes()
-	for {
-		n, err := r.Read(s)
-		if err == io.EOF {
-			return nil
-		}
-		if err != nil {
-			return err
-		}
-		s = s[:n]
-	}
+	_, err := io.ReadFull(r, lumpdata.AsBytes())
+	return err
 }
 
 func main() {
diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 6466151..abf6fd8 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -716,6 +716,10 @@ func (self *SnapNVM) copyOnWrite(realPos uint64, size int) error {
 
 	_, onOrigin := backFile.GetCopyOffset(realPos, realPos+uint64(size))
 	for i := 0; i < len(onOrigin); i++ {
+		if uint64(onOrigin[i])*backFile.RegionSize() >= backFile.rawCapacity {
+			//not a part of the snapshot
+			continue
+		}
 		n, err := util.ReadFull(rawFile, ab, int64(uint64(onOrigin[i])*backFile.RegionSize()))
 		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 			return errors.Wrap(err, "failed to read the origin file")
-- 
2.43.0


From 0f8762dda84a3b1ba0d1e04cf35848c4f0754c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 13/22] fix: readup keeps serving without free lump ids and
 runs one backup at a time

---
 cmd/readup/main.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 050a128..39a3b1b 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync/atomic"
 
 	"io"
 	"os"
@@ -36,7 +37,7 @@ func favicon(w http.ResponseWriter, r *http.Request) {
 
 //Based on https://medium.com/@cep21/how-to-correctly-use-context-context-in-go-1-7-8f2c0fafdf39
 
-var backupRuning bool = false
+var backupRuning int32 = 0 //atomic
 
 //put
 type PutRequest struct {
@@ -139,9 +140,9 @@ func ServeStore(store *storage.Storage) {
 					if req.isAutoId {
 						id, have = chooseID(store)
 						if !have {
-							req.resultChan <- PutResult{id.U64(), NoLumpIdSpaceError, nil}
+							results = append(results, PutResult{id.U64(), NoLumpIdSpaceError, req.resultChan})
 							span.End()
-							return
+							continue
 						}
 					}
 					var err error
@@ -278,7 +279,7 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		if backupRuning {
+		if !atomic.CompareAndSwapInt32(&backupRuning, 0, 1) {
 			c.String(http.StatusCreated, "backup is running")
 			return
 		}
@@ -287,20 +288,24 @@ func ServeStore(store *storage.Storage) {
 		backupStopper.RunWorker(func() {
 			//open backup file, name is start time
 			defer func() {
-				backupRuning = false
+				atomic.StoreInt32(&backupRuning, 0)
 			}()
 
 			reader, err := store.GetSnapshotReader()
+			if err != nil {
+				fmt.Println(err)
+				return
+			}
 			fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
 			backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
 			if err != nil {
 				return
 			}
+			defer backfile.Close()
 			var buf [512 << 10]byte
 			for {
 				select {
 				case <-backupStopper.ShouldStop():
-					backfile.Close()
 					return
 				case <-time.After(100 * time.Millisecond):
 					n, err := reader.Read(buf[:])
@@ -310,7 +315,6 @@ func ServeStore(store *storage.Storage) {
 					}
 					if n == 0 {
 						store.DeleteSnapshot()
-						backfile.Close()
 						return
 					}
 					n, err = backfile.Write(buf[0:n])
-- 
2.43.0


From 28caccd506c0ec6f934a5513152bfb53d95123f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 14/22] fix: journal GC drops superseded copies of a live
 record

---
 storage/journal/region.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index b1b7e5c..d23fa5b 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -315,6 +315,17 @@ func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) error {
 	return nil
 }
 
+//the lump which is stored by record
+func lumpIdOf(record JournalRecord) (id lump.LumpId, ok bool) {
+	switch v := record.(type) {
+	case PutRecord:
+		return v.LumpID, true
+	case EmbedRecord:
+		return v.LumpID, true
+	}
+	return lump.EmptyLump(), false
+}
+
 func (journal *JournalRegion) fillGCQueue() {
 
 	var err error
@@ -331,10 +342,9 @@ func (journal *JournalRegion) fillGCQueue() {
 		panic(fmt.Sprintf("fillGCQueue %+v", err))
 	}
 
-	var i int
-	i = 0
+	entries := make([]JournalEntry, 0, 64)
 	iter := journal.ring.DequeueIter()
-	for i < GC_QUEUE_SIZE {
+	for len(entries) < GC_QUEUE_SIZE {
 		entry, err := iter.PopFront()
 		//fmt.Printf("read entry: %+v, err: %+v\n", entry, err)
 		if err == internalerror.NoEntries {
@@ -343,8 +353,22 @@ func (journal *JournalRegion) fillGCQueue() {
 		if err != nil {
 			panic(fmt.Sprintf("Journal failed to read entries %+v", err))
 		}
+		entries = append(entries, entry)
+	}
+
+	//a record which is followed by another one of the same lump is garbage, even if both look
+	//the same: GC and reopen could leave many copies of a live record
+	last := make(map[lump.LumpId]int)
+	for i, entry := range entries {
+		if id, ok := lumpIdOf(entry.Record); ok {
+			last[id] = i
+		}
+	}
+	for i, entry := range entries {
+		if id, ok := lumpIdOf(entry.Record); ok && last[id] != i {
+			continue
+		}
 		journal.gcQueue.PushBack(entry)
-		i++
 	}
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.GcQueueSize.M(int64(journal.gcQueue.Len())))
-- 
2.43.0


From de394d3db18b2659cdf99fa8e205c31e63a762a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 15/22] fix: aligned buffers are aligned for block sizes that
 are no power of two

---
 block/aligned_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index ceb11eb..b219197 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -17,7 +17,7 @@ type AlignedBytes struct {
 //https://github.com/ncw/directio/blob/master/direct_io.go
 func alignment(block []byte, AlignSize uint16) int {
 	//address % 512
-	return int(uintptr(unsafe.Pointer(&block[0])) & uintptr(AlignSize-1))
+	return int(uintptr(unsafe.Pointer(&block[0])) % uintptr(AlignSize))
 }
 
 func createNewAlignedBuf(size int, blockSize BlockSize) (uint16, []byte) {
-- 
2.43.0


From 2e480dec0d7ab018d704f3a9552fefc063c673b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 16/22] fix: reading a lump whose unsynced trailer was lost
 reports an error instead of a bogus size

---
 storage/data_region.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 686b61d..46ed85e 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -234,6 +234,16 @@ func (region *DataRegion) fitsWithout(old portion.DataPortion, data lump.LumpDat
 	return region.allocator.ReleasedLen(old) >= uint64(blocks)
 }
 
+//size of the user data in onDiskSize bytes, data ends with the trailer.
+//the trailer could be anything if the process crashed before the lump was synced
+func (region *DataRegion) sizeWithoutPadding(onDiskSize uint32, data []byte) (uint32, error) {
+	paddingSize := uint32(util.GetUINT16(data[len(data)-LUMP_DATA_TRAILER_SIZE:]))
+	if paddingSize >= region.block_size.AsU32() || paddingSize+LUMP_DATA_TRAILER_SIZE > onDiskSize {
+		return 0, errors.Wrapf(internalerror.StorageCorrupted, "padding size %d is wrong", paddingSize)
+	}
+	return onDiskSize - paddingSize - LUMP_DATA_TRAILER_SIZE, nil
+}
+
 //read/write threadSafe
 func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32, err error) {
 	/*
@@ -255,9 +265,10 @@ func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32,
 	if err != nil {
 		return 0, err
 	}
-	paddingSize := uint32(util.GetUINT16(buf[region.block_size-2:]))
-	size = uint32(dataPortion.Len)*uint32(region.block_size) -
-		paddingSize - LUMP_DATA_TRAILER_SIZE
+	size = uint32(dataPortion.Len) * uint32(region.block_size)
+	if size, err = region.sizeWithoutPadding(size, buf); err != nil {
+		return 0, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(region.block_size)))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
@@ -284,9 +295,11 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 	if _, err := region.nvm.ReadAt(ab.AsBytes(), int64(offset)); err != nil {
 		return lump.LumpData{}, err
 	}
-	paddingSize := uint32(util.GetUINT16(ab.AsBytes()[ab.Len()-2:]))
-
-	ab.Resize(ab.Len() - paddingSize - LUMP_DATA_TRAILER_SIZE)
+	size, err := region.sizeWithoutPadding(ab.Len(), ab.AsBytes())
+	if err != nil {
+		return lump.LumpData{}, err
+	}
+	ab.Resize(size)
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(ab.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-- 
2.43.0


From 060aef0b209de10dd276571604f629d591b5a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 17/22] fix: a power loss must not leave half of a replaced END
 OF RECORDS in the journal

---
 storage/journal/ring_buffer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index d92cefa..7cf8ece 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -131,6 +131,13 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	if err = ring.writeAt(ring.tail, record, EndOfRecords{}); err != nil {
 		return
 	}
+	if ring.endIsSplit() {
+		//a later write covers the second block of the replaced END OF RECORDS only. if it
+		//reached the disk without this one, a half of END OF RECORDS would remain
+		if err = ring.nvm.Sync(); err != nil {
+			return
+		}
+	}
 	ring.tail += uint64(record.ExternalSize())
 
 	switch r := record.(type) {
@@ -142,6 +149,11 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+//END OF RECORDS at the tail is in two blocks
+func (ring *JournalRingBuffer) endIsSplit() bool {
+	return ring.nvm.BlockSize().FloorAlign(ring.tail) != ring.nvm.BlockSize().FloorAlign(ring.tail+END_OF_RECORDS_SIZE-1)
+}
+
 //write records at position, all or nothing
 func (ring *JournalRingBuffer) writeAt(position uint64, records ...JournalRecord) (err error) {
 	buf := new(bytes.Buffer)
-- 
2.43.0


From c168333f329e22c227ab164c9ff2ccc37af0bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 18/22] fix: a store named .lusf finds its snapshot again

---
 nvm/snapnvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index abf6fd8..f335a99 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -635,7 +635,7 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	///a/b/c/d/EXXX.lusf => /a/b/c/d/EXXX
 	//../../../ASDF.lusf => ../../../ASDF
 	baseName := strings.TrimSuffix(filepath.Base(originFile.path), ".lusf")
-	prefix := filepath.Join(fileDirectory, baseName)
+	prefix := strings.TrimSuffix(originFile.path, ".lusf")
 	matches, err := findBackingFiles(fileDirectory, baseName)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b18f0c6a5f8fc19fb92aeef6b2493fd86a4df453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 19/22] fix: a failed append must not leave its record in the
 journal

---
 storage/journal/ring_buffer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 7cf8ece..87df13b 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -128,16 +128,17 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//3. write data and End OF Record
 	preTail := ring.tail
-	if err = ring.writeAt(ring.tail, record, EndOfRecords{}); err != nil {
-		return
-	}
 	if ring.endIsSplit() {
-		//a later write covers the second block of the replaced END OF RECORDS only. if it
-		//reached the disk without this one, a half of END OF RECORDS would remain
+		//END OF RECORDS must be on disk before it is replaced: a later write covers its second
+		//block only, if that write reached the disk alone, a half of it would remain.
+		//this is done before record is written, which could not be taken back on failure
 		if err = ring.nvm.Sync(); err != nil {
 			return
 		}
 	}
+	if err = ring.writeAt(ring.tail, record, EndOfRecords{}); err != nil {
+		return
+	}
 	ring.tail += uint64(record.ExternalSize())
 
 	switch r := record.(type) {
-- 
2.43.0


From bb84bb9b07df810e60b88b30baec1270d0c21b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 20/22] fix: an entry of the backing file whose write failed
 must not refer to other data

---
 nvm/snapnvm.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index f335a99..4028101 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -266,6 +266,7 @@ type BackingFile struct {
 	tree           judy.JudyL
 	regionSize     uint64
 	fileName       string
+	entryInDoubt   bool //the write of the entry at JournalEnd failed, it could be on disk
 }
 
 func (bf *BackingFile) Close() {
@@ -373,6 +374,16 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 		OriginOffset: uint32(offset),
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
+	if bf.entryInDoubt {
+		//it must not refer to the data which is written now
+		if _, err := bf.file.WriteAt(make([]byte, entry.Size()), int64(bf.JournalEnd)); err != nil {
+			return errors.Wrap(err, "failed to write backing file")
+		}
+		if err := bf.file.Sync(); err != nil {
+			return errors.Wrap(err, "failed to sync backing file")
+		}
+		bf.entryInDoubt = false
+	}
 	//Write data
 	if _, err := bf.file.WriteAt(buf, int64(start)); err != nil {
 		return errors.Wrap(err, "failed to write backing file")
@@ -385,6 +396,7 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	if err := entry.WriteTo(entryBuf); err != nil {
 		return err
 	}
+	bf.entryInDoubt = true
 	if _, err := bf.file.WriteAt(entryBuf.Bytes(), int64(bf.JournalEnd)); err != nil {
 		return errors.Wrap(err, "failed to write backing file")
 	}
@@ -392,6 +404,7 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 		return errors.Wrap(err, "failed to sync backing file")
 	}
 
+	bf.entryInDoubt = false
 	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-- 
2.43.0


From 7da50abc08cb44b5dff35280eebfe1ae451ad790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 21/22] fix: sync a record which replaced a split END OF
 RECORDS before the next append

---
 storage/journal/ring_buffer.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 87df13b..2ea9bdf 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -25,6 +25,8 @@ type JournalRingBuffer struct {
 	tail           uint64
 	//usage field is atomic, only used for collecting metrics
 	usage uint64
+	//the last record replaced an END OF RECORDS in two blocks, and is not synced
+	splitReplaced bool
 }
 
 func (ring *JournalRingBuffer) Head() uint64 {
@@ -90,7 +92,11 @@ func (ring *JournalRingBuffer) Usage() uint64 {
 }
 
 func (ring *JournalRingBuffer) Sync() error {
-	return ring.nvm.Sync()
+	if err := ring.nvm.Sync(); err != nil {
+		return err
+	}
+	ring.splitReplaced = false
+	return nil
 }
 
 func (ring *JournalRingBuffer) Flush() error {
@@ -107,6 +113,14 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 		return
 	}
 
+	if ring.splitReplaced {
+		//the next write covers the second block of the replaced END OF RECORDS only. if it reached
+		//the disk without the previous one, a half of END OF RECORDS would remain
+		if err = ring.Sync(); err != nil {
+			return
+		}
+	}
+
 	//2. check overflow
 	if ring.isOverFlow(uint64(record.ExternalSize())) {
 		//the front must end there before anything leads to it: after a crash, the
@@ -128,17 +142,11 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//3. write data and End OF Record
 	preTail := ring.tail
-	if ring.endIsSplit() {
-		//END OF RECORDS must be on disk before it is replaced: a later write covers its second
-		//block only, if that write reached the disk alone, a half of it would remain.
-		//this is done before record is written, which could not be taken back on failure
-		if err = ring.nvm.Sync(); err != nil {
-			return
-		}
-	}
+	replaceSplit := ring.endIsSplit()
 	if err = ring.writeAt(ring.tail, record, EndOfRecords{}); err != nil {
 		return
 	}
+	ring.splitReplaced = replaceSplit
 	ring.tail += uint64(record.ExternalSize())
 
 	switch r := record.(type) {
-- 
2.43.0


From 4cef949de523eb79a29f7c1c365282d0c523a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 22/22] fix: read the header again once the store file is
 locked

Another process could expand the store between reading the header and
taking the lock: the stale header made the store open with its old size,
and a second Resize shrank it and lost lumps.
---
 nvm/file.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index b820a22..0d84abc 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -115,17 +115,13 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	if parsedFile, err = os.OpenFile(path, os.O_RDWR, 0755); err != nil {
 		return nil, nil, err
 	}
+	defer parsedFile.Close()
 	//read the first sector
-	if header, err = ReadFromFile(parsedFile); err != nil {
-		parsedFile.Close()
+	if _, err = ReadFromFile(parsedFile); err != nil {
 		return nil, nil, err
 	}
 
-	capacity := header.StorageSize()
-
 	//reopen the file
-	parsedFile.Close()
-
 	if f, err = openFileWithDirectIO(path, os.O_RDWR, 0755); err != nil {
 		return nil, nil, err
 	}
@@ -134,12 +130,19 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 		f.Close()
 		return nil, nil, err
 	}
-	err = nil
+	//someone else could have changed the header before the file was locked
+	if _, err = parsedFile.Seek(0, io.SeekStart); err == nil {
+		header, err = ReadFromFile(parsedFile)
+	}
+	if err != nil {
+		f.Close()
+		return nil, nil, err
+	}
 	nvm = &FileNVM{
 		file:            f,
 		cursor_position: 0,
 		viewStart:       0,
-		viewEnd:         capacity,
+		viewEnd:         header.StorageSize(),
 		splited:         false,
 		path:            path,
 	}
-- 
2.43.0

