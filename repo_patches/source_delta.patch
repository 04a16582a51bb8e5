From 29b216945a6750cde8a9d0a2a4cfdbeb056e5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 1/9] fix: encode and decode IDs and values as the encoding
 type says

With encodings DeltaID and DeltaValue the writer delta-encoded both sections
while the reader decodes one; with VarIntID and VarIntValue WriteBlock always
failed. Follow column_format_spec.md 4.2 on both sides.
---
 pkg/col/reader_decode.go   |  8 +++++---
 pkg/col/writer_block.go    |  4 ++--
 pkg/col/writer_encoding.go | 24 ++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..942c4c0 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
+	isVarIntIDs := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntID ||
+		encodingType == EncodingVarIntBoth
+	isVarIntValues := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	if isVarIntIDs {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +47,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if isVarIntValues {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..565594f 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,10 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..ca2c0ab 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -4,6 +4,30 @@ import (
 	"fmt"
 )
 
+// idSectionEncoding returns the encoding that applies to the ID section of a
+// block: encodings for values only leave the IDs raw
+func idSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaValue, EncodingVarIntValue:
+		return EncodingRaw
+	case EncodingVarIntID:
+		return EncodingVarIntBoth // delta and varint
+	}
+	return encodingType
+}
+
+// valueSectionEncoding returns the encoding that applies to the value section
+// of a block: encodings for IDs only leave the values raw
+func valueSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID, EncodingVarIntID:
+		return EncodingRaw
+	case EncodingVarIntValue:
+		return EncodingVarIntBoth // delta and varint
+	}
+	return encodingType
+}
+
 // encodeData is a helper function to encode data based on the encoding type
 func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
 	var encodedData []T
-- 
2.43.0


From 7887415b64b780bf4b804a5e2de542064a7a30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 2/9] fix: decode a stored statistic of MinInt64 as MinInt64,
 not 0

---
 pkg/col/encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..1036115 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,6 +94,10 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
+	// The smallest int64 has no magnitude below 1<<63
+	if value == 1<<63 {
+		return -1 << 63
+	}
 	// Handle negative values by converting bits back
 	return ^int64(value&^(1<<63)) + 1
 }
-- 
2.43.0


From 8b56b12375d583a69c0e4d6de05cd6a93793ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 3/9] fix: return the zero result from every aggregation that
 selects nothing

Some paths returned Min=MaxInt64 and Max=MinInt64, others zeros.
---
 pkg/col/reader_aggregate.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/col/reader_aggregate.go b/pkg/col/reader_aggregate.go
index 8b6956c..23a8b69 100644
--- a/pkg/col/reader_aggregate.go
+++ b/pkg/col/reader_aggregate.go
@@ -42,7 +42,17 @@ func (r *Reader) Aggregate() AggregateResult {
 }
 
 // AggregateWithOptions aggregates all blocks with the specified options and returns the result
+// An aggregation that selects no pairs returns the zero result
 func (r *Reader) AggregateWithOptions(opts AggregateOptions) AggregateResult {
+	result := r.aggregate(opts)
+	if result.Count == 0 {
+		return AggregateResult{}
+	}
+	return result
+}
+
+// aggregate aggregates all blocks with the specified options
+func (r *Reader) aggregate(opts AggregateOptions) AggregateResult {
 	// If parallel aggregation is enabled, use it
 	if opts.Parallel != 0 {
 		return r.aggregateParallel(opts)
-- 
2.43.0


From 6608c42330f8214d6d5221962cd79e042d6f056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 4/9] fix: keep a failed block write or finalize out of the
 file

Record a block only once it is synced, and start every block and the bitmap
at the end of the last complete block. A failed first block left its IDs in the
global ID bitmap, a failed sync made a retry write the block twice, and a
retried Finalize could write the bitmap over the header and first block.
---
 pkg/col/writer.go          |  2 ++
 pkg/col/writer_block_io.go | 40 +++++++++++++++++++++-----------------
 pkg/col/writer_finalize.go |  4 ++--
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 202f748..19aa939 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -18,6 +18,7 @@ func minInt(a, b int) int {
 // Writer writes a column file
 type Writer struct {
 	file            *os.File
+	end             int64 // Where the next block starts: the end of the last complete block
 	blockCount      uint64
 	encodingType    uint32
 	blockSizeTarget uint32
@@ -36,6 +37,7 @@ func NewWriter(filename string, options ...WriterOption) (*Writer, error) {
 
 	writer := &Writer{
 		file:            file,
+		end:             headerSize,
 		blockCount:      0,
 		encodingType:    EncodingRaw, // Default
 		blockSizeTarget: defaultBlockSize,
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..3615ee6 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -70,11 +70,6 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
 func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
-	// Add all IDs to the global ID bitmap
-	for _, id := range ids {
-		w.globalIDs.Set(id)
-	}
-
 	// Determine if we need to use variable-length encoding
 	useVarIntForIDs := w.encodingType == EncodingVarInt ||
 		w.encodingType == EncodingVarIntID ||
@@ -102,14 +97,11 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	count := uint32(len(ids))
 
 	// Write block header (64 bytes)
-	blockStart, err := w.file.Seek(0, io.SeekCurrent)
+	blockStart, err := w.seekToEnd()
 	if err != nil {
 		return fmt.Errorf("failed to get block start position: %w", err)
 	}
 
-	// Store this position so we can refer to it later in the footer
-	w.blockPositions = append(w.blockPositions, uint64(blockStart))
-
 	// Convert int64 values to uint64 for storage
 	minValueU64 := int64ToUint64(minValue)
 	maxValueU64 := int64ToUint64(maxValue)
@@ -300,6 +292,14 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 			expectedBlockSize, blockSize-uint64(padding), blockSizeDifference)
 	}
 
+	// Sync to disk to ensure data consistency
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file: %w", err)
+	}
+
+	// The block is complete: record it for the footer
+	w.end = blockEnd
+	w.blockPositions = append(w.blockPositions, uint64(blockStart))
 	w.blockSizes = append(w.blockSizes, uint32(blockSize))
 
 	// Store block statistics for footer
@@ -315,14 +315,23 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	// Increment block count
 	w.blockCount++
 
-	// Sync to disk to ensure data consistency
-	if err := w.file.Sync(); err != nil {
-		return fmt.Errorf("failed to sync file: %w", err)
+	// Add all IDs to the global ID bitmap
+	for _, id := range ids {
+		w.globalIDs.Set(id)
 	}
 
 	return nil
 }
 
+// seekToEnd moves to the end of the last complete block, dropping anything that
+// a failed or earlier write left after it
+func (w *Writer) seekToEnd() (int64, error) {
+	if err := w.file.Truncate(w.end); err != nil {
+		return 0, err
+	}
+	return w.file.Seek(w.end, io.SeekStart)
+}
+
 // EstimateBlockSize calculates the exact size a block would be without writing it
 // This is useful for determining if a block would fit within a target size
 func (w *Writer) EstimateBlockSize(ids []uint64, values []int64) (uint64, error) {
@@ -350,13 +359,8 @@ func (w *Writer) EstimateBlockSize(ids []uint64, values []int64) (uint64, error)
 	totalSize := uint64(blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize)
 
 	// Add padding size if needed for page alignment
-	currentPos, err := w.file.Seek(0, io.SeekCurrent)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get current position: %w", err)
-	}
-
 	// Calculate where the block would end
-	blockEnd := currentPos + int64(totalSize)
+	blockEnd := w.end + int64(totalSize)
 
 	// Add padding if needed
 	padding := calculatePadding(blockEnd, PageSize)
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..a29ef5d 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -8,8 +8,8 @@ import (
 
 // writeGlobalIDBitmap writes the global ID bitmap to the file
 func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
-	// Get the current position - this is where the bitmap will start
-	bitmapOffset, err := w.file.Seek(0, io.SeekCurrent)
+	// The bitmap starts at the end of the last complete block
+	bitmapOffset, err := w.seekToEnd()
 	if err != nil {
 		return 0, 0, fmt.Errorf("failed to get bitmap offset: %w", err)
 	}
-- 
2.43.0


From c83d2d9b01fb5ce9977d3646f37a14168fbe4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 5/9] fix: sync the file before writing the footer metadata
 that makes it valid

Without it a power loss could keep the footer but not the bitmap or header it
refers to, and the file still opened. Also reject a footer whose size does not
match its block count (torn metadata).
---
 pkg/col/reader_header.go   | 5 +++++
 pkg/col/writer_finalize.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..4bf6666 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -103,6 +103,11 @@ func (r *Reader) readFooter() error {
 	}
 	blockIndexCount := binary.LittleEndian.Uint32(blockIndexCountBuf)
 
+	// The footer holds exactly the count and its entries (56 bytes each)
+	if r.footerMeta.FooterSize != 4+56*uint64(blockIndexCount) {
+		return fmt.Errorf("invalid footer size: %d for %d blocks", r.footerMeta.FooterSize, blockIndexCount)
+	}
+
 	// Check if block count matches with header
 	if uint64(blockIndexCount) != r.header.BlockCount {
 		// Use the higher value to ensure we don't miss data
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index a29ef5d..beb9efd 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -161,6 +161,12 @@ func (w *Writer) Finalize() error {
 	footerSize := footerEnd - footerStart
 	footerMetaStart := footerEnd
 
+	// The footer metadata makes the file valid: everything else must be on disk
+	// before it, also if power is lost
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before footer metadata: %w", err)
+	}
+
 	// Write footer metadata
 	if err := binary.Write(w.file, binary.LittleEndian, uint64(footerSize)); err != nil {
 		return fmt.Errorf("failed to write footer size: %w", err)
-- 
2.43.0


From 8f5eb21a4ef486b61b4ee42a755263100501899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 6/9] fix: guard the cached global ID bitmap of a shared Reader
 with a mutex

Readers are shared between goroutines; with caching enabled, loading, enabling
and disabling raced.
---
 pkg/col/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..6888159 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -15,6 +16,7 @@ type Reader struct {
 	header         FileHeader
 	footerMeta     FooterMetadata
 	blockIndex     []FooterEntry
+	bitmapMu       sync.Mutex // Guards globalIDs and cacheGlobalIDs
 	globalIDs      *sroar.Bitmap
 	cacheGlobalIDs bool // Whether to cache the global ID bitmap
 }
@@ -126,11 +128,17 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.bitmapMu.Lock()
+	defer r.bitmapMu.Unlock()
+
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.bitmapMu.Lock()
+	defer r.bitmapMu.Unlock()
+
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -139,6 +147,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.bitmapMu.Lock()
+	defer r.bitmapMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From 6c1ebe86bf727bdaa5c1c7cb7c6726f4cdf4f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 7/9] fix: loadtest aggregate exits with a failing status when
 a block cannot be read

---
 cmd/loadtest/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/loadtest/main.go b/cmd/loadtest/main.go
index 408d14b..2dbedfe 100644
--- a/cmd/loadtest/main.go
+++ b/cmd/loadtest/main.go
@@ -229,7 +229,7 @@ func runAggregations(reader *col.Reader, skipCache bool, parallel int) {
 		_, values, err := reader.GetPairs(i)
 		if err != nil {
 			fmt.Printf("Error reading block %d: %v\n", i, err)
-			return
+			os.Exit(1)
 		}
 		totalValues += int64(len(values))
 	}
-- 
2.43.0


From bc2b581711e3b7387ec45f2fc962a6ae01bf43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:52 +0000
Subject: [PATCH 8/9] fix: report reads that come back short

readBytesAt took a read that ended at the end of the file for complete and
left zeros in place of the missing bytes: with a file that had become
shorter since it was opened, GetPairs and GetGlobalIDBitmap answered with
wrong data instead of an error.
---
 pkg/col/reader_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..ce2ac1e 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -13,7 +13,7 @@ func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From ba454272aa7195422db6a6f1820142032c880a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:52 +0000
Subject: [PATCH 9/9] fix: report unreadable blocks when aggregating several
 files

MultiReader.Aggregate returns an error, but the aggregation of each file
skipped the blocks that could not be read, so that a failing read gave a
wrong total without an error.
---
 pkg/col/reader_aggregate.go | 25 +++++++++++++++++++++----
 pkg/multicol/aggregate.go   | 12 ++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pkg/col/reader_aggregate.go b/pkg/col/reader_aggregate.go
index 23a8b69..3aa9090 100644
--- a/pkg/col/reader_aggregate.go
+++ b/pkg/col/reader_aggregate.go
@@ -1,6 +1,7 @@
 package col
 
 import (
+	"fmt"
 	"runtime"
 	"sync"
 
@@ -60,7 +61,8 @@ func (r *Reader) aggregate(opts AggregateOptions) AggregateResult {
 
 	// If a filter or deny filter is provided, use filtered aggregation
 	if opts.Filter != nil || opts.DenyFilter != nil {
-		return r.aggregateWithFilter(opts)
+		result, _ := r.aggregateWithFilter(opts) // Skip blocks with errors
+		return result
 	}
 
 	// If we have a footer with block statistics and we're not skipping pre-calculated values, use it for efficient aggregation
@@ -219,8 +221,19 @@ func (r *Reader) readBlockFiltered(blockIndex int, filter, denyFilter *sroar.Bit
 	return filteredIDs, filteredValues, nil
 }
 
+// AggregateFiltered aggregates the pairs that pass the filters, one block after the other
+// Unlike AggregateWithOptions, it returns an error if a block cannot be read
+func (r *Reader) AggregateFiltered(filter, denyFilter *sroar.Bitmap) (AggregateResult, error) {
+	result, err := r.aggregateWithFilter(AggregateOptions{Filter: filter, DenyFilter: denyFilter})
+	if err != nil || result.Count == 0 {
+		return AggregateResult{}, err
+	}
+	return result, nil
+}
+
 // aggregateWithFilter performs aggregation with filtering
-func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
+// It returns the result for the blocks that can be read, and the error of the first one that cannot
+func (r *Reader) aggregateWithFilter(opts AggregateOptions) (AggregateResult, error) {
 	// Get blocks that potentially match the filter
 	matchingBlocks := r.FilteredBlockIterator(opts.Filter, opts.DenyFilter)
 
@@ -232,7 +245,7 @@ func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
 			Max:   0,
 			Sum:   0,
 			Avg:   0,
-		}
+		}, nil
 	}
 
 	// Read and aggregate all matching blocks
@@ -240,12 +253,16 @@ func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
 	var min int64 = 9223372036854775807  // Max int64
 	var max int64 = -9223372036854775808 // Min int64
 	var sum int64 = 0
+	var firstErr error
 
 	for _, blockIdx := range matchingBlocks {
 		// Read block with filtering
 		_, values, err := r.readBlockFiltered(int(blockIdx), opts.Filter, opts.DenyFilter)
 		if err != nil {
 			// Skip blocks with errors
+			if firstErr == nil {
+				firstErr = fmt.Errorf("failed to read block %d: %w", blockIdx, err)
+			}
 			continue
 		}
 
@@ -273,7 +290,7 @@ func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
 		Max:   max,
 		Sum:   sum,
 		Avg:   avg,
-	}
+	}, firstErr
 }
 
 // aggregateParallel performs aggregation in parallel
diff --git a/pkg/multicol/aggregate.go b/pkg/multicol/aggregate.go
index b1ac4ea..218ca2a 100644
--- a/pkg/multicol/aggregate.go
+++ b/pkg/multicol/aggregate.go
@@ -62,15 +62,11 @@ func (mr *MultiReader) Aggregate(opts AggregateOptions) (col.AggregateResult, er
 	for i := len(mr.readers) - 1; i >= 0; i-- {
 		reader := mr.readers[i]
 
-		// Create aggregation options for this reader
-		readerOpts := col.AggregateOptions{
-			SkipPreCalculated: opts.SkipPreCalculated,
-			Filter:            opts.Filter,
-			DenyFilter:        denyBitmap,
-		}
-
 		// Aggregate this reader with the current deny filter
-		readerResult := reader.AggregateWithOptions(readerOpts)
+		readerResult, err := reader.AggregateFiltered(opts.Filter, denyBitmap)
+		if err != nil {
+			return col.AggregateResult{}, fmt.Errorf("failed to aggregate reader %d: %w", i, err)
+		}
 
 		// Get the global ID bitmap for this reader
 		globalIDs, err := reader.GetGlobalIDBitmap()
-- 
2.43.0

