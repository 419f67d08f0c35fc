From 1c33d4684306ac64aefcb99dcadd92c2fc98376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 01/30] fix: index the first node of a block when its id is 0
 or 1

lastId starts as the "not assigned" sentinel (MaxUint64), so an id of 0 or 1
was treated as an extension of a range which had not been started.  The range
was never written (or the locations were shifted by one), and lookups of the
affected nodes returned nothing, or the location of another node.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From fb942a9f7c5663598528580c946c7fc2d99493a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 02/30] fix: make the node index passes cover the whole index

The size of a pass was rounded down, so the final pass stopped short when the
number of locations was not a multiple of the number of passes, and nodes at
the end of the index were never found.  A pass which starts past the final
element (a large element, or more passes than locations) restarted from the
first element, and a pass which ends before the first element panicked.
---
 internal/nodeindex/nodeindex.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..99d1913 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -68,12 +68,12 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		&subIds,
 	)
 
-	sliceSize := uint64(len(idx.locations)) / countPass
-	startTarget := sliceSize * curPass
-	endTarget := startTarget + sliceSize
+	totalLocations := uint64(len(idx.locations))
+	startTarget := totalLocations * curPass / countPass
+	endTarget := totalLocations * (curPass + 1) / countPass
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -91,11 +91,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From ba32e44d16247b57a47c9b0a6b42e34fa66879af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 03/30] fix: make the way index passes cover the whole index

The size of a pass was rounded down, so the final pass stopped short when the
size of the locations was not a multiple of the number of passes, and ways at
the end of the index were never found.  A pass which starts past the final way
restarted from the first way, and an empty index panicked.
---
 internal/wayindex/wayindex.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..2757eac 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -66,11 +66,10 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	subIds := idx.Ids
 
 	// These targets are likely to be mid way, but that's fine
-	startTarget := int64((len(idx.Loc) / countPass) * curPass)
-	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
-
-	startIndex := 0
+	startTarget := int64(len(idx.Loc) * curPass / countPass)
+	endTarget := int64(len(idx.Loc) * (curPass + 1) / countPass)
 
+	startIndex := len(subIds)
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= startTarget {
@@ -86,11 +85,16 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From 046038d770339246fae68c0cf98a9ae1fa87e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/30] fix: keep the empty string at index 0 of the string
 table

Adding the empty string overflowed its frequency from MaxUint32 to 0, so it
was sorted to the end of the table.  Index 0 is reserved (it is the delimiter
in dense node tags), so all the tags in the block were corrupted.
---
 internal/t/string_table_builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..5af6886 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -27,6 +27,10 @@ func (stb *stringTableBuilder) AddMap(m map[string]string) {
 }
 
 func (stb *stringTableBuilder) AddString(s string) {
+	if s == "" {
+		// Always present, and always index 0.  Counting it would overflow the frequency.
+		return
+	}
 	if _, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-- 
2.43.0


From 8856e92472095cbc650153edbd5caf57d130e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 05/30] fix: reject a count of exactly 2^24 in a node index
 element

It does not fit in the 24 bits available, and was stored as a count of 0 with
the wrong offset.
---
 internal/nodeindex/count_offset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
-- 
2.43.0


From d3637af4fd3618c3f1a543e03b220bab7a1eb549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 06/30] fix: reject way ids and offsets which do not fit in a
 way index entry

A way id of exactly 2^31, a negative way id, or an offset of exactly 2^33 does
not fit in the bits available, and was stored as some other way or offset.
---
 internal/wayindex/indexdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..298d57d 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,10 +16,10 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
+	if wayID < 0 || wayID >= (1<<31) {
 		panic("wayID too large")
 	}
-	if offset > (1 << 33) {
+	if offset >= (1 << 33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
-- 
2.43.0


From a3e3feafa45647937128f6373b0b6f23723e1db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 07/30] fix: allow ways which are larger than 16KB when encoded

Locations delta encode poorly (up to 10 bytes each), so a way with the maximum
of 2000 nodes does not fit in 16KB, and writing it panicked.
---
 internal/t/primitive_group.go | 2 +-
 internal/t/way.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index dda9ac0..f73cecc 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -73,7 +73,7 @@ func (pg *PrimitiveGroup) Write(buf []byte) []byte {
 
 	if pg.Ways != nil {
 		for _, w := range pg.Ways {
-			buf = pb.Embed16384(primitiveGroupWays, w.Write, buf)
+			buf = pb.Embed2097152(primitiveGroupWays, w.Write, buf)
 		}
 	} else {
 		for _, w := range pg.RawWays {
diff --git a/internal/t/way.go b/internal/t/way.go
index 20ba3c6..a6b494e 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -47,6 +47,6 @@ func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
 	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
 	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
-	buf = pb.Embed16384(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
+	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From c6cca60466698c3f41498b635035ceeea9e3bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 08/30] fix: write a blob with an empty payload as an empty raw
 payload

The field was dropped, leaving a blob with no data at all, which can not be
read back.
---
 internal/t/blob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
-- 
2.43.0


From d889a3762eeb4289f090f450eecc0def92f50d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 09/30] fix: produce an empty relation index for a file with no
 relations

The initial pass writes an empty file in this case, which can not be mapped, so
the first pass panicked.
---
 cmd/relindex/relindex.go | 7 +++++++
 internal/iio/wrappers.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 945b618..5e31e47 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -33,6 +33,13 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 	fIn := iio.OsOpen(inputFile)
 	fOut := iio.OsCreate(outputFile)
 
+	if iio.FSize(fIn) == 0 {
+		// There are no relations, and an empty file can not be mapped
+		iio.FClose(fOut)
+		iio.FClose(fIn)
+		return
+	}
+
 	m := iio.MMapMap(fIn)
 	u := iunsafe.ByteSliceAsInt64Slice(m)
 
diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 8cca215..18335ff 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -35,6 +35,14 @@ func FSeek(f *os.File, o int64, w int) int64 {
 	}
 }
 
+func FSize(f *os.File) int64 {
+	if fi, err := f.Stat(); err != nil {
+		panic(err)
+	} else {
+		return fi.Size()
+	}
+}
+
 func FClose(f *os.File) {
 	if err := f.Close(); err != nil {
 		panic(err)
-- 
2.43.0


From f7e032c98e8670e1822c84d86d6ffa9c16dac1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 10/30] fix: do not finalize a node index when it is cancelled

A cancelled build has only some of the elements and locations, but it was given
a valid header, so it was indistinguishable from a complete index.
---
 cmd/nodeindex/indexer/nodeindexer_writer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..d21bf0e 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -64,10 +64,13 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
-		// Put the index block count at the start of the index file
+		// Put the index block count at the start of the index file.  If the context was
+		// cancelled then the index is incomplete, so leave it without a valid header.
 		ni.writer.SetCurrentState(state.WriteFinalizing)
-		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-		iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+		if !icontext.IsCancelled(ctx) {
+			iio.FSeek(outputFileIdx, 0, io.SeekStart)
+			iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+		}
 		iio.FClose(outputFileIdx)
 	}
 }
-- 
2.43.0


From f20bf94a0ff19074f2e9c389e91429d1e8ac9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 11/30] fix: make an incomplete way index unreadable

The placeholder header was that of a valid, empty, index, so a build which did
not finish left an index where no ways could be found.  A cancelled build has
only some of the ways and locations, but it was given a valid header.
---
 cmd/wayindex/wayindexer/wayindexer_writer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 10127cd..e54fc49 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -19,7 +19,8 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		outputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")
 
 		// Reserve 16 bytes.  Don't need nearly this much for the header, but it keeps things in cache lines
-		iio.FWriteSliceI64(outputFileIdx, []int64{0, 0})
+		// It must not be mistaken for a valid (empty) index if we don't get to the end.
+		iio.FWriteSliceI64(outputFileIdx, []int64{-1, -1})
 
 		var outputData []uint64
 		locationLength := int64(0)
@@ -73,9 +74,11 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
-		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-		// TODO: Version
-		iio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})
+		if !icontext.IsCancelled(ctx) {
+			iio.FSeek(outputFileIdx, 0, io.SeekStart)
+			// TODO: Version
+			iio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})
+		}
 		iio.FClose(outputFileIdx)
 	}
 }
-- 
2.43.0


From a902d7a04b9d68d7774621f2c7df3a6db0bc88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 12/30] fix: escape the text of an empty or full progress bar

The text was escaped when the bar was partially filled, but was otherwise
returned as is, so anything containing a % was mangled.
---
 internal/ui/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..cc895f9 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -6,7 +6,7 @@ import (
 
 func MarkupAsProgress(s string, w int, pct float64) string {
 	if w == 0 {
-		return s
+		return EscapePercent(s)
 	}
 
 	if pct < 0 {
@@ -21,9 +21,9 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return s
+		return EscapePercent(s)
 	} else if pre >= len(s) {
-		return s
+		return EscapePercent(s)
 	}
 	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
 }
-- 
2.43.0


From 1336d749c567f97fb63fd07e31c5a3ff8c845015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 13/30] fix: close the output of tagfilter

Every other tool closes its output, and reports an error if that fails.
---
 cmd/tagfilter/tagfilterer/tagfilterer_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
index cb69108..7cefbbd 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
@@ -44,5 +44,7 @@ func (tf *TagFilterer) Writer(filename string) pbf.WriteFunc {
 
 			tf.writer.SetCurrentState(state.WriterReading)
 		}
+
+		iio.FClose(outputFile)
 	}
 }
-- 
2.43.0


From 0fd06437e6a5fcc09c3c23e1edfa68c5cf2899df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 14/30] fix: reject a zlib blob whose raw size or checksum is
 wrong

---
 internal/t/blob.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index 6f2483e..8bd604c 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"io"
 
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/pool"
@@ -76,19 +77,16 @@ func (b *Blob) decodeZLib() pool.BorrowedBuffer {
 	borrowedBuffer := pool.ByteSlice.Get(uint64(*b.RawSize))
 	outBuf := borrowedBuffer.Buffer
 
-	remaining := int(*b.RawSize)
-	start := 0
-	for remaining > 0 {
-		remainingBuffer := outBuf[start:cap(outBuf)]
-		read, err := zlibReader.Read(remainingBuffer)
-		remaining -= read
-		start += read
-		if remaining == 0 {
-			return borrowedBuffer
-		}
-		if err != nil {
-			panic(err)
-		}
+	if _, err := io.ReadFull(zlibReader, outBuf); err != nil {
+		panic(err)
+	}
+
+	// The data must end here, and reading the end is what verifies the checksum.
+	var extra [1]byte
+	if _, err := io.ReadFull(zlibReader, extra[:]); err == nil {
+		panic("blob is larger than its raw size")
+	} else if err != io.EOF {
+		panic(err)
 	}
 
 	return borrowedBuffer
-- 
2.43.0


From be45fbdf5320342d857cf56f7b0c5d9091010300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 15/30] fix: reject a length which exceeds the enclosing
 message

---
 internal/pb/buffer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..40d3200 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -6,7 +6,8 @@ func DecodeBytes(buf []byte, next *int) []byte {
 
 func ReadBytes(buf []byte, next *int) []byte {
 	byteLength := int(DecodeVarInt(buf, next))
-	outputBuffer := buf[*next : *next+byteLength]
+	// The capacity is that of the enclosing buffers, so bound it by the length
+	outputBuffer := buf[*next : *next+byteLength : len(buf)]
 	*next += byteLength
 	return outputBuffer
 }
@@ -22,8 +23,7 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
-	*next += byteLength
+	ReadBytes(buf, next)
 }
 
 func EncodeIdBuffer(bufOutput []byte, id uint64, bufInput []byte) []byte {
-- 
2.43.0


From 9b27e9865b01fde47fff4d162d50fbb86ace3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 16/30] fix: reject arrays of different lengths which belong
 together

---
 internal/t/dense_nodes.go | 6 ++++++
 internal/t/relation.go    | 6 ++++++
 internal/t/way.go         | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/internal/t/dense_nodes.go b/internal/t/dense_nodes.go
index 38c6b20..92da83f 100644
--- a/internal/t/dense_nodes.go
+++ b/internal/t/dense_nodes.go
@@ -42,6 +42,9 @@ func ReadDenseNodes(buf []byte, dn *DenseNodes) {
 			panic(fmt.Sprintf("ReadDenseNodes: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	if len(dn.Lat) != len(dn.Id) || len(dn.Lon) != len(dn.Id) {
+		panic(fmt.Sprintf("ReadDenseNodes: %d ids, %d lats, %d lons", len(dn.Id), len(dn.Lat), len(dn.Lon)))
+	}
 }
 
 func (dn *DenseNodes) Write(buf []byte) []byte {
@@ -74,6 +77,9 @@ func (dn *DenseNodes) GetKeyVals(idx int) ([]uint32, []uint32) {
 				startOfKeyVals++
 			}
 		}
+		if len(dn.cacheKeys) != len(dn.Id) || len(curKeys) != 0 {
+			panic(fmt.Sprintf("GetKeyVals: tags do not match %d ids", len(dn.Id)))
+		}
 	}
 
 	return dn.cacheKeys[idx], dn.cacheVals[idx]
diff --git a/internal/t/relation.go b/internal/t/relation.go
index 87726ec..a33cfa2 100644
--- a/internal/t/relation.go
+++ b/internal/t/relation.go
@@ -53,6 +53,12 @@ func ReadRelation(buf []byte, r *Relation) {
 			panic(fmt.Sprintf("ReadRelation: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	if len(r.Keys) != len(r.Vals) {
+		panic(fmt.Sprintf("ReadRelation: %d keys, %d vals", len(r.Keys), len(r.Vals)))
+	}
+	if len(r.RolesSID) != len(r.MemIDs) || len(r.MemberType) != len(r.MemIDs) {
+		panic(fmt.Sprintf("ReadRelation: %d roles, %d members, %d types", len(r.RolesSID), len(r.MemIDs), len(r.MemberType)))
+	}
 }
 
 func (r *Relation) Write(buf []byte) []byte {
diff --git a/internal/t/way.go b/internal/t/way.go
index a6b494e..347544d 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -41,6 +41,9 @@ func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
 			panic(fmt.Sprintf("Way: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	if len(w.Keys) != len(w.Vals) {
+		panic(fmt.Sprintf("Way: %d keys, %d vals", len(w.Keys), len(w.Vals)))
+	}
 }
 
 func (w *Way) Write(buf []byte) []byte {
-- 
2.43.0


From e58268fc5c497ea980fc69db15e3f071c4cd667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 17/30] fix: reject negative offsets in a way index entry

---
 internal/wayindex/indexdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index 298d57d..8eefabe 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -19,8 +19,8 @@ func MakeIndexData(wayID int64, offset int64) WayIndexData {
 	if wayID < 0 || wayID >= (1<<31) {
 		panic("wayID too large")
 	}
-	if offset >= (1 << 33) {
-		panic(fmt.Sprintf("offset too large: %d\n", offset))
+	if offset < 0 || offset >= (1 << 33) {
+		panic(fmt.Sprintf("offset out of range: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
 }
-- 
2.43.0


From def27e99a57907cfcb851e724db3c002c11c657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 18/30] fix: count characters, not bytes, in progress markup

---
 internal/ui/format.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index cc895f9..b5c61c2 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -15,17 +15,20 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 		pct = 1
 	}
 
-	pad := w - len(s)
+	// Count and cut characters, not bytes
+	r := []rune(s)
+	pad := w - len(r)
 	if pad > 0 {
-		s = s + strings.Repeat(" ", pad)
+		r = append(r, []rune(strings.Repeat(" ", pad))...)
 	}
+	s = string(r)
 	pre := int(float64(w) * pct)
 	if pre < 0 {
 		return EscapePercent(s)
-	} else if pre >= len(s) {
+	} else if pre >= len(r) {
 		return EscapePercent(s)
 	}
-	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
+	return "%S" + EscapePercent(string(r[:pre])) + "%N" + EscapePercent(string(r[pre:]))
 }
 
 func EscapePercent(s string) string {
-- 
2.43.0


From 9b395c2d758182edc1981028060491576582d02a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 19/30] fix: refuse fewer than one worker

---
 cmd/blockcount/args.go   | 4 ++++
 cmd/decompress/args.go   | 4 ++++
 cmd/entitycount/args.go  | 4 ++++
 cmd/entityfind/args.go   | 4 ++++
 cmd/nodeindex/args.go    | 4 ++++
 cmd/relindex/args.go     | 4 ++++
 cmd/rewritenodes/args.go | 4 ++++
 cmd/tagfilter/args.go    | 4 ++++
 cmd/wayindex/args.go     | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..eb28131 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -42,6 +42,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	// Validation results
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..c940da5 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..0fbabbd 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -42,6 +42,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..204a956 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -43,6 +43,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..42cea3e 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..5b893ca 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..9f05a21 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -47,6 +47,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..e05a07d 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -44,6 +44,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..35eb14a 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -46,6 +46,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From 24b1344cd92d5d58eee060b8f21bf185a5485758 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 20/30] fix: refuse fewer than one pass

---
 cmd/relindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index 5b893ca..243e958 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -53,6 +53,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From 5394111284a3096632551ef054832a4c95c577cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 21/30] fix: refuse an alignment by which nothing can be
 shifted

---
 cmd/wayindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 35eb14a..6b134c8 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -50,6 +50,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Alignment < 0 || opts.Alignment > 62 {
+		errors = append(errors, "alignment must be between 0 and 62")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From ca78161fafcc7b2d17cd62ab92928559289d1015 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 22/30] fix: refuse a negative sub-index-index

---
 cmd/dumpwayindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..5c2d3f5 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -53,6 +53,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
 	}
 
+	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < 0 {
+		errors = append(errors, "sub-index-index must not be negative")
+	}
+
 	if opts.SubIndexCount != nil && opts.SubIndexIndex != nil && *opts.SubIndexIndex >= *opts.SubIndexCount {
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
-- 
2.43.0


From f56dd2630a0ec73b0d7d35bd444e59d148e9af80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 23/30] fix: refuse a negative refresh interval

---
 cmd/rewritenodes/args.go | 1 +
 cmd/tagfilter/args.go    | 1 +
 internal/ui/args.go      | 6 +++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 9f05a21..18fd2fa 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -51,6 +51,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index e05a07d..8f2ecce 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -48,6 +48,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if len(errors) > 0 {
diff --git a/internal/ui/args.go b/internal/ui/args.go
index f86dfa2..7d38e05 100644
--- a/internal/ui/args.go
+++ b/internal/ui/args.go
@@ -9,5 +9,9 @@ type UIOpts struct {
 }
 
 func (opts *UIOpts) Validate() []string {
-	return nil
+	var errors []string
+	if opts.Refresh < 0 {
+		errors = append(errors, "refresh must not be negative")
+	}
+	return errors
 }
-- 
2.43.0


From 78ce8a72f013057c90ccb04dc5a06fbdac2eba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:19 +0000
Subject: [PATCH 24/30] fix: notice when the display can not be started

views.Application ignores the error of Init(). Without a terminal the work was done,
and then the end of the display panicked: the status was that of a failure, and
relindex had written nothing but its intermediate file.
---
 internal/ui/ui.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/ui/ui.go b/internal/ui/ui.go
index 754fbb5..7ede09b 100644
--- a/internal/ui/ui.go
+++ b/internal/ui/ui.go
@@ -24,6 +24,16 @@ type normalUI struct {
 	wg       sync.WaitGroup
 }
 
+// initializedScreen is a tcell.Screen which has already been
+// initialized. views.Application ignores the error of Init().
+type initializedScreen struct {
+	tcell.Screen
+}
+
+func (*initializedScreen) Init() error {
+	return nil
+}
+
 func NewUI(updateInterval time.Duration, cancel context.CancelFunc) UI {
 	if updateInterval == 0 {
 		return &debugUI{}
@@ -32,6 +42,9 @@ func NewUI(updateInterval time.Duration, cancel context.CancelFunc) UI {
 	if err != nil {
 		panic(err)
 	}
+	if err := screen.Init(); err != nil {
+		panic(err)
+	}
 	app := &views.Application{}
 	u := &normalUI{
 		app:       app,
@@ -42,7 +55,7 @@ func NewUI(updateInterval time.Duration, cancel context.CancelFunc) UI {
 		shutdown:  make(chan struct{}),
 	}
 
-	app.SetScreen(screen)
+	app.SetScreen(&initializedScreen{screen})
 	app.SetRootWidget(u)
 	app.Start()
 
-- 
2.43.0


From 629755302ae23fc88edd1a993d3156faa34f8ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:20 +0000
Subject: [PATCH 25/30] fix: refuse a timing factor which does not exceed 1

Dividing by a factor of 1 or less never brings a lookup time below 1, so
the tool hung behind the truncation of its output.
---
 cmd/rewritenodes/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 18fd2fa..31f453c 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -51,6 +51,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Timing != nil && !(*opts.Timing > 1) { // NaN is not greater than 1 either
+		errors = append(errors, "timing must be greater than 1")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
-- 
2.43.0


From a44fe276fc66672e481a5e4649cd739f9a4543d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:20 +0000
Subject: [PATCH 26/30] fix: keep lookup times beyond the last interval

With a factor close to 1 a lookup takes longer than the last interval, and
counting it panicked in the middle of the output.
---
 internal/nodeindex/nodesubindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index d7f61ae..7607001 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -89,7 +89,7 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) { // the last interval has no upper end
 			// TODO: something something log?
 			i++
 			delta /= si.parent.divFactor
-- 
2.43.0


From dad24dfd85434797e8dc61012a601d84adc2fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 27/30] fix: do not let the memory target overflow

A target of 2^44 MB or zero became a division by zero, and a larger one
was carried out as a small one.
---
 cmd/rewritenodes/args.go         | 4 ++++
 cmd/rewritenodes/rewritenodes.go | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 31f453c..8b75d11 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -51,6 +51,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Memory != nil && *opts.Memory < 1 {
+		errors = append(errors, "memory must be at least 1")
+	}
+
 	if opts.Timing != nil && !(*opts.Timing > 1) { // NaN is not greater than 1 either
 		errors = append(errors, "timing must be greater than 1")
 	}
diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..752656d 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -36,9 +36,8 @@ func main() {
 	passes := uint64(1)
 
 	if opts.Memory != nil {
-		memTarget := *opts.Memory * 1048576
-		memRequired := ix.LocationCount() * 8
-		passes = (memRequired / memTarget) + 1
+		memRequired := ix.LocationCount() * 8 / 1048576 // multiplying the target may overflow
+		passes = (memRequired / *opts.Memory) + 1
 	}
 
 	nr := &rewriter.NodeRewriter{}
-- 
2.43.0


From ee9f047efd044fef98a3d0e5bc66b5f899d27966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 28/30] fix: refuse a node index whose end is missing

---
 internal/nodeindex/nodeindex.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 99d1913..9cbd283 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -40,6 +40,13 @@ func NewNodeIndex(fn string, timing *float64) *NodeIndex {
 	d = d[2:]
 	indexData := d[:startOfLocations*2]
 	locationData := d[startOfLocations*2:]
+	if len(indexData) > 0 {
+		// If the end of the file is missing, it must not be mistaken for a smaller index
+		last := CountOffset(indexData[len(indexData)-1])
+		if last.Offset()+last.Count() > uint64(len(locationData)) {
+			panic("incomplete index")
+		}
+	}
 	idx := &NodeIndex{
 		f:         f,
 		mem:       m,
-- 
2.43.0


From b1c5a970af1e4df3bd8e96748fdcd0a297c2cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 29/30] fix: refuse a way index whose end is missing

---
 internal/wayindex/wayindex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index 2757eac..676e4cb 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/iunsafe"
+	"github.com/squizzling/osmindex/internal/pb"
 )
 
 type WayIndex struct {
@@ -42,6 +43,10 @@ func NewWayIndex(fn string, timing *float64) *WayIndex {
 	var indexData []WayIndexData
 	iunsafe.ByteSliceAsArbSlice(m[16:16+startOfLocationsInElements], &indexData)
 	locationData := m[16+startOfLocationsInElements:]
+	if len(indexData) > 0 {
+		// If the end of the file is missing, it must not be mistaken for a smaller index.  This panics if so.
+		pb.DecodeS64PackedDeltaZero(locationData[indexData[len(indexData)-1].Offset()<<alignmentShift:])
+	}
 	idx := &WayIndex{
 		f:              f,
 		mem:            m,
-- 
2.43.0


From 6ef8d35a30cb4b736be058da517616f343b5d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 30/30] fix: do not destroy an input which is named as the
 output

---
 cmd/decompress/args.go   |  5 +++++
 cmd/nodeindex/args.go    |  5 +++++
 cmd/relindex/args.go     |  5 +++++
 cmd/rewritenodes/args.go |  5 +++++
 cmd/tagfilter/args.go    |  5 +++++
 cmd/wayindex/args.go     |  5 +++++
 internal/iio/samefile.go | 19 +++++++++++++++++++
 7 files changed, 49 insertions(+)
 create mode 100644 internal/iio/samefile.go

diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index c940da5..a8f9d25 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -49,6 +50,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output must not be an input")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 42cea3e..7f4a500 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -49,6 +50,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output must not be an input")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index 243e958..133edba 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -57,6 +58,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "passes must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) || iio.SameFile(opts.OutputFile, opts.WayIndex) {
+		errors = append(errors, "output must not be an input")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 8b75d11..2dc4d5c 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/jessevdk/go-flags"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -59,6 +60,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "timing must be greater than 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) || iio.SameFile(opts.OutputFile, opts.IndexFile) {
+		errors = append(errors, "output must not be an input")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index 8f2ecce..d1d51b2 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/jessevdk/go-flags"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -48,6 +49,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output must not be an input")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 6b134c8..63fde11 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -54,6 +55,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "alignment must be between 0 and 62")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output must not be an input")
+	}
+
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
diff --git a/internal/iio/samefile.go b/internal/iio/samefile.go
new file mode 100644
index 0000000..4238a57
--- /dev/null
+++ b/internal/iio/samefile.go
@@ -0,0 +1,19 @@
+package iio
+
+import (
+	"os"
+)
+
+// SameFile tells whether two paths lead to the same file. Opening
+// one of them for output would destroy the other.
+func SameFile(a, b string) bool {
+	infoA, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	infoB, err := os.Stat(b)
+	if err != nil {
+		return false
+	}
+	return os.SameFile(infoA, infoB)
+}
-- 
2.43.0

