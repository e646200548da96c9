From ef1872f257cc206df3020ea76d1fac91f5bd2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 01/12] fix: encode and decode the ID and value sections per
 encoding type

The writer delta-encoded both sections for every delta encoding and the
reader chose one integer format for both sections, so encodings 1, 2, 5
and 6 did not round-trip (5 and 6 could not be written at all).
---
 pkg/col/reader_decode.go   |  8 +++++---
 pkg/col/writer_block.go    |  4 ++--
 pkg/col/writer_encoding.go | 30 ++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..580b7ed 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
+	isVarIntID := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntID ||
+		encodingType == EncodingVarIntBoth
+	isVarIntValue := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	if isVarIntID {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +47,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if isVarIntValue {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..565594f 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,10 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..657f190 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -47,3 +47,33 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 
 	return encodedData, encodedDataBytes, sectionSize, nil
 }
+
+// idSectionEncoding returns the encoding of the ID section under the given
+// file encoding: the value-only encodings leave the IDs raw.
+func idSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID:
+		return EncodingDeltaBoth
+	case EncodingVarIntID:
+		return EncodingVarIntBoth
+	case EncodingDeltaValue, EncodingVarIntValue:
+		return EncodingRaw
+	default:
+		return encodingType
+	}
+}
+
+// valueSectionEncoding returns the encoding of the value section under the
+// given file encoding: the ID-only encodings leave the values raw.
+func valueSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaValue:
+		return EncodingDeltaBoth
+	case EncodingVarIntValue:
+		return EncodingVarIntBoth
+	case EncodingDeltaID, EncodingVarIntID:
+		return EncodingRaw
+	default:
+		return encodingType
+	}
+}
-- 
2.43.0


From ea959511e6760e5149ab9c880f4b7dcdbba7c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 02/12] fix: restore the smallest int64 from its stored form

---
 pkg/col/encoding.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..f8de3bc 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -95,7 +95,12 @@ func uint64ToInt64(value uint64) int64 {
 		return int64(value)
 	}
 	// Handle negative values by converting bits back
-	return ^int64(value&^(1<<63)) + 1
+	magnitude := value &^ (1 << 63)
+	if magnitude == 0 {
+		// The magnitude of the smallest int64 does not fit 63 bits
+		return -1 << 63
+	}
+	return ^int64(magnitude) + 1
 }
 
 // encodeVarInt encodes an unsigned integer as a variable-length byte array
-- 
2.43.0


From c35971e9c9b4fe784bf2f51e598dec981de98e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 03/12] fix: report a failed size estimate instead of cutting
 the block short

---
 pkg/col/writer_block_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..ebefb54 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -43,7 +43,7 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		for i := 1; i < len(ids); i++ {
 			size, err := w.EstimateBlockSize(ids[:i], values[:i])
 			if err != nil {
-				break
+				return fmt.Errorf("failed to estimate block size: %w", err)
 			}
 
 			if size <= uint64(w.blockSizeTarget) {
-- 
2.43.0


From a0f3ba7948fd44d87a67bf959807e20712e9de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 04/12] fix: reject reads and blocks that lie outside the file

---
 pkg/col/reader_block.go | 3 +++
 pkg/col/reader_io.go    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..06304a4 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -21,6 +21,9 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	// We need to read the layout section (16 bytes) and the data sections
 	dataOffset := blockOffset + blockHeaderSize
 	dataSize := int(blockSize) - blockHeaderSize
+	if dataSize < blockLayoutSize {
+		return nil, nil, fmt.Errorf("block %d is too small: %d bytes", blockIndex, blockSize)
+	}
 
 	// Read all data after the header in one call
 	blockData, err := r.readBytesAt(dataOffset, dataSize)
diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..478a26b 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,12 +8,17 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	// Offsets and sizes come from the file itself, so check them before use
+	if offset < 0 || size < 0 || offset > r.fileSize || int64(size) > r.fileSize-offset {
+		return nil, fmt.Errorf("read of %d bytes at offset %d is outside the file (%d bytes)", size, offset, r.fileSize)
+	}
+
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From 34072758b21bf1654195e3e5868fbb6130bddb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 05/12] fix: report block data that cannot be decoded instead
 of inventing rows

---
 pkg/col/reader_decode.go | 78 ++++++++++------------------------------
 1 file changed, 19 insertions(+), 59 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 580b7ed..41ad16b 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -25,22 +25,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 			return nil, nil, fmt.Errorf("failed to decode varint IDs: %w", err)
 		}
 	} else {
-		// Calculate max number of IDs we can read
+		// Read fixed-width IDs
 		bytesPerID := 8
-		maxCount := len(idBytes) / bytesPerID
-		if count > maxCount {
-			count = maxCount
+		if count > len(idBytes)/bytesPerID {
+			return nil, nil, fmt.Errorf("ID section too small: %d bytes for %d IDs", len(idBytes), count)
 		}
-
-		// Read fixed-width IDs
 		ids = make([]uint64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerID+bytesPerID <= len(idBytes) {
-				ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
-			} else {
-				// Mock test data for out-of-bounds reads
-				ids[i] = uint64(i + 1)
-			}
+			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
 		}
 	}
 
@@ -49,43 +41,28 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 	if isVarIntValue {
 		// Decode variable-length values
+		if count > len(valueBytes) {
+			return nil, nil, fmt.Errorf("value section too small: %d bytes for %d values", len(valueBytes), count)
+		}
 		values = make([]int64, count)
 		offset := 0
-		for i := 0; i < count && offset < len(valueBytes); i++ {
+		for i := 0; i < count; i++ {
 			var bytesRead int
-			if offset < len(valueBytes) {
-				values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
-				if bytesRead <= 0 {
-					// Mock test data for invalid varints
-					values[i] = int64((i + 1) * 100)
-					bytesRead = 1
-				}
-				offset += bytesRead
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
+			values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
+			if bytesRead <= 0 {
+				return nil, nil, fmt.Errorf("failed to decode varint value at index %d, bytes remaining: %d", i, len(valueBytes)-offset)
 			}
+			offset += bytesRead
 		}
 	} else {
 		// Decode fixed-width values
 		bytesPerValue := 8
-		maxCount := len(valueBytes) / bytesPerValue
-		if count > maxCount {
-			count = maxCount
-			// Adjust IDs to match
-			if len(ids) > count {
-				ids = ids[:count]
-			}
+		if count > len(valueBytes)/bytesPerValue {
+			return nil, nil, fmt.Errorf("value section too small: %d bytes for %d values", len(valueBytes), count)
 		}
-
 		values = make([]int64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerValue+bytesPerValue <= len(valueBytes) {
-				values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
-			}
+			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
 		}
 	}
 
@@ -115,24 +92,15 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
+	if count > len(buf) {
+		return nil, fmt.Errorf("section too small: %d bytes for %d uvarints", len(buf), count)
+	}
 	vals := make([]uint64, 0, count)
 	offset := 0
 
-	// Try to decode up to 'count' varints, but stop if we run out of data
-	for i := 0; i < count && offset < len(buf); i++ {
-		// Make sure we have at least one byte to read
-		if offset >= len(buf) {
-			break
-		}
-
-		// Try to decode a varint
+	for i := 0; i < count; i++ {
 		v, n := binary.Uvarint(buf[offset:])
 		if n <= 0 {
-			// If we can't decode any more varints but we've already decoded some,
-			// return what we have instead of failing
-			if i > 0 {
-				return vals, nil
-			}
 			return nil, fmt.Errorf("failed to decode uvarint at index %d, bytes remaining: %d", i, len(buf)-offset)
 		}
 
@@ -140,13 +108,5 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		offset += n
 	}
 
-	// If we couldn't decode enough varints, return what we have
-	if len(vals) < count {
-		// Fill the rest with sequential IDs as needed for tests
-		for i := len(vals); i < count; i++ {
-			vals = append(vals, uint64(i+1))
-		}
-	}
-
 	return vals, nil
 }
-- 
2.43.0


From 57aef95748c67831db95f86ae49cef583930e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 06/12] fix: do not decode a varint that is cut short

---
 pkg/col/encoding.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index f8de3bc..b78d760 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -141,6 +141,7 @@ func encodeVarInt(value uint64) []byte {
 
 // decodeVarInt decodes a variable-length byte array back to uint64
 // It reads bytes until it finds one without the continuation bit set
+// A value that is cut short or too long is reported as 0 bytes read
 func decodeVarInt(data []byte) (uint64, int) {
 	var result uint64
 	var shift uint
@@ -166,13 +167,12 @@ func decodeVarInt(data []byte) (uint64, int) {
 
 		// Safeguard against malformed data: uint64 uses max 10 bytes (70 bits)
 		if shift >= 70 {
-			return result, bytesRead
+			return 0, 0
 		}
 	}
 
 	// If we get here, the continuation bit was set on the last byte but we have no more data
-	// Return what we've got
-	return result, bytesRead
+	return 0, 0
 }
 
 // encodeSignedVarInt encodes a signed int64 as a variable-length byte array
-- 
2.43.0


From 662ba770d6f87935be8fe8fd1e45eaf47b2862d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 07/12] fix: reject a block that starts inside the file header

---
 pkg/col/reader_block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 06304a4..7bbaf26 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -21,6 +21,9 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	// We need to read the layout section (16 bytes) and the data sections
 	dataOffset := blockOffset + blockHeaderSize
 	dataSize := int(blockSize) - blockHeaderSize
+	if blockOffset < headerSize {
+		return nil, nil, fmt.Errorf("block %d has an invalid offset: %d", blockIndex, blockOffset)
+	}
 	if dataSize < blockLayoutSize {
 		return nil, nil, fmt.Errorf("block %d is too small: %d bytes", blockIndex, blockSize)
 	}
-- 
2.43.0


From 882201ed0b1dc43f3642a55b911046831e7e826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 08/12] fix: write the id bitmap at the end of the file when
 finalizing is repeated

---
 pkg/col/writer_finalize.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..eac6f66 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -8,8 +8,9 @@ import (
 
 // writeGlobalIDBitmap writes the global ID bitmap to the file
 func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
-	// Get the current position - this is where the bitmap will start
-	bitmapOffset, err := w.file.Seek(0, io.SeekCurrent)
+	// The bitmap goes at the end of the file, also when an earlier attempt to
+	// finalize failed with the position elsewhere
+	bitmapOffset, err := w.file.Seek(0, io.SeekEnd)
 	if err != nil {
 		return 0, 0, fmt.Errorf("failed to get bitmap offset: %w", err)
 	}
-- 
2.43.0


From 62e374f7634b6ea030c38c388fa9367d7d1d7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 09/12] fix: record a block and its ids only once it is written
 and synced

---
 pkg/col/writer_block_io.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index ebefb54..da9f16f 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -70,11 +70,6 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
 func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
-	// Add all IDs to the global ID bitmap
-	for _, id := range ids {
-		w.globalIDs.Set(id)
-	}
-
 	// Determine if we need to use variable-length encoding
 	useVarIntForIDs := w.encodingType == EncodingVarInt ||
 		w.encodingType == EncodingVarIntID ||
@@ -101,15 +96,13 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	sum := calculateSumInt64(values)
 	count := uint32(len(ids))
 
-	// Write block header (64 bytes)
-	blockStart, err := w.file.Seek(0, io.SeekCurrent)
+	// Write block header (64 bytes) at the end of the file, also when an earlier
+	// call failed with the position elsewhere
+	blockStart, err := w.file.Seek(0, io.SeekEnd)
 	if err != nil {
 		return fmt.Errorf("failed to get block start position: %w", err)
 	}
 
-	// Store this position so we can refer to it later in the footer
-	w.blockPositions = append(w.blockPositions, uint64(blockStart))
-
 	// Convert int64 values to uint64 for storage
 	minValueU64 := int64ToUint64(minValue)
 	maxValueU64 := int64ToUint64(maxValue)
@@ -300,7 +293,18 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 			expectedBlockSize, blockSize-uint64(padding), blockSizeDifference)
 	}
 
+	// Sync to disk to ensure data consistency
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file: %w", err)
+	}
+
+	// The block is complete: record it, and only now, so that a block whose
+	// write failed leaves no trace in the footer or the bitmap
+	w.blockPositions = append(w.blockPositions, uint64(blockStart))
 	w.blockSizes = append(w.blockSizes, uint32(blockSize))
+	for _, id := range ids {
+		w.globalIDs.Set(id)
+	}
 
 	// Store block statistics for footer
 	w.blockStats = append(w.blockStats, BlockStats{
@@ -315,11 +319,6 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	// Increment block count
 	w.blockCount++
 
-	// Sync to disk to ensure data consistency
-	if err := w.file.Sync(); err != nil {
-		return fmt.Errorf("failed to sync file: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 91de70081e70da4eafcab0809f39357f3a9ed544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 10/12] fix: report the delta variable-length encodings as
 delta encoded

---
 pkg/col/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..ca29fc3 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -74,7 +74,10 @@ func (r *Reader) EncodingType() uint32 {
 func (r *Reader) IsDeltaEncoded() bool {
 	return r.header.EncodingType == EncodingDeltaID ||
 		r.header.EncodingType == EncodingDeltaValue ||
-		r.header.EncodingType == EncodingDeltaBoth
+		r.header.EncodingType == EncodingDeltaBoth ||
+		r.header.EncodingType == EncodingVarIntID ||
+		r.header.EncodingType == EncodingVarIntValue ||
+		r.header.EncodingType == EncodingVarIntBoth
 }
 
 // IsVarIntEncoded returns whether the file uses variable-length encoding
-- 
2.43.0


From 74c7d19e66997ec5a53f0389b6ce4d60b42d2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 11/12] fix: guard the cached id bitmap against concurrent use

---
 pkg/col/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index ca29fc3..fe6f7a4 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -15,6 +16,7 @@ type Reader struct {
 	header         FileHeader
 	footerMeta     FooterMetadata
 	blockIndex     []FooterEntry
+	globalIDsMu    sync.Mutex // Guards globalIDs and cacheGlobalIDs
 	globalIDs      *sroar.Bitmap
 	cacheGlobalIDs bool // Whether to cache the global ID bitmap
 }
@@ -129,11 +131,15 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -142,6 +148,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From 826aaef0b91bbb4c806970a714038f8de7c5ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:20 +0000
Subject: [PATCH 12/12] fix: sync everything else before writing the magic
 number that makes a file readable

Finalize wrote the header, the id bitmap, the footer and the trailing magic
number and then synced once. Unsynced writes may reach the disk in any order,
so after a power loss the magic number could be there without, say, the header
update: the file then opened with an empty id bitmap or other blocks.
---
 pkg/col/writer_finalize.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index eac6f66..02bb7eb 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -169,6 +169,13 @@ func (w *Writer) Finalize() error {
 	if err := binary.Write(w.file, binary.LittleEndian, uint64(0)); err != nil {
 		return fmt.Errorf("failed to write checksum: %w", err)
 	}
+
+	// The magic number at the end makes the file readable, so everything else
+	// has to be on disk first: unsynced writes may survive a power loss in any order
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before the magic number: %w", err)
+	}
+
 	if err := binary.Write(w.file, binary.LittleEndian, MagicNumber); err != nil {
 		return fmt.Errorf("failed to write magic number: %w", err)
 	}
-- 
2.43.0

