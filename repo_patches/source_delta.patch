From a3b87ba353f0ee4dc0593f2b2c0b1ed3fe776516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 01/59] fix: avoid integer overflow in block cache bounds
 checks

---
 file_systems/common/blockcache/blockcache.go | 26 ++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..d3844d9 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -220,7 +220,11 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
@@ -234,7 +238,7 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
 				"can't access %d bytes (%d blocks) starting at block %d; requested"+
@@ -249,6 +253,18 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 	return nil
 }
 
+// checkBlockRange is like [CheckBounds] but takes a number of blocks instead of
+// a number of bytes.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, count uint) error {
+	// This must come first, since otherwise the conversion to bytes can overflow.
+	if count > cache.totalBlocks {
+		return disko.ErrArgumentOutOfRange.WithMessage(
+			fmt.Sprintf("%d blocks exceeds cache size of %d", count, cache.totalBlocks),
+		)
+	}
+	return cache.CheckBounds(start, count*cache.bytesPerBlock)
+}
+
 // GetSlice returns a slice pointing to the cache's storage, beginning at block
 // `start` and continuing for `count` blocks.
 //
@@ -285,7 +301,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -322,7 +338,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -472,7 +488,7 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 827130718e1b9c2722696688829ad09c0698aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 02/59] fix: report the number of bytes actually copied from
 BlockCache.ReadAt

---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index d3844d9..307d61e 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -405,8 +405,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From fbd357d3c2aa4d4b819a0ce91b82b06780051b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 03/59] fix: allow loading and flushing an empty block cache

---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 307d61e..e90ebd7 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -372,12 +372,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From a054ea4e5d68f3cc7f98bd80f175b96e2afabf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 04/59] fix: load blocks before marking them dirty in the block
 cache

---
 file_systems/common/blockcache/blockcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index e90ebd7..c18466d 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -493,7 +493,9 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.checkBlockRange(start, count)
+	// Blocks that aren't present must be loaded first, otherwise flushing would
+	// overwrite them in the backing storage with nulls.
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 93761b5c463be40e19f7318eb9104163ae5cd156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 05/59] fix: handle short reads and failed writes in
 stream-wrapping block caches

---
 file_systems/common/blockcache/blockcache.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index c18466d..6d4ba13 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -124,15 +124,21 @@ func WrapStream(
 		}
 
 		if read {
-			_, err = stream.Read(buffer)
+			var n int
+			n, err = io.ReadFull(stream, buffer)
+			if err == io.EOF || err == io.ErrUnexpectedEOF {
+				// Anything past the end of the stream is treated as nulls.
+				clear(buffer[n:])
+				err = nil
+			}
 		} else {
-			_, err = stream.Write(buffer)
+			var n int
+			n, err = stream.Write(buffer)
+			if err == nil && n < len(buffer) {
+				err = io.ErrShortWrite
+			}
 		}
-
-		if err != nil && err != io.EOF {
-			return err
-		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From 839ad0294361a165275639947c1f7d5d05fffded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 06/59] fix: track the new size when resizing a stream-wrapping
 block cache

---
 file_systems/common/blockcache/blockcache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 6d4ba13..b21df16 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -156,7 +156,12 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err == nil {
+				// The bounds checks in the other callbacks must use the new size.
+				totalBlocks = uint(newTotalBlocks)
+			}
+			return err
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From d26fe47de029cea426e793e9c81697dbf5f69bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 07/59] fix: mark exactly the blocks written to by a
 BasicStream as dirty

---
 file_systems/common/basicstream/basicstream.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..37d8613 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -277,9 +277,14 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, disko.ErrNotPermitted
 	}
 
+	// The address computations below assume we're writing at least one byte.
 	bufLen := int64(len(buffer))
+	if bufLen == 0 {
+		return 0, nil
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
 
 	// If we're going to end up writing past the end of the stream we need to
 	// grow the file first.
@@ -290,13 +295,18 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock-startBlock)+1)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
 
+	err = stream.data.MarkBlockRangeDirty(startBlock, uint(lastBlock-startBlock)+1)
+	if err != nil {
+		return 0, err
+	}
+
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
 	}
-- 
2.43.0


From fed86f85787c1d9dca0b13c327fc6f7c671e2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 08/59] fix: update the size of a BasicStream when a write
 grows it within its blocks

---
 file_systems/common/basicstream/basicstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 37d8613..2ca594c 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -307,6 +307,9 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, err
 	}
 
+	// The write may have grown the file without needing any new blocks.
+	stream.size = max(stream.size, offset+bufLen)
+
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
 	}
-- 
2.43.0


From 26d682c154091ba5442044ec07a50691072efe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 09/59] fix: zero out stale bytes when a BasicStream grows

---
 .../common/basicstream/basicstream.go         | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 2ca594c..935a312 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -234,7 +234,14 @@ func (stream *BasicStream) Truncate(size int64) error {
 	}
 	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
+	// If we're growing the file, the unused part of the blocks it already has
+	// becomes visible.
+	err := stream.zeroFill(stream.size, size)
+	if err != nil {
+		return err
+	}
+
+	err = stream.data.Resize(newTotalBlocks)
 	if err != nil {
 		return err
 	}
@@ -247,6 +254,26 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// zeroFill overwrites all bytes in the range [start, end) with nulls, ignoring
+// anything past the end of the cache.
+func (stream *BasicStream) zeroFill(start, end int64) error {
+	end = min(end, stream.data.Size())
+	if start >= end {
+		return nil
+	}
+
+	firstBlock, startOffset := stream.convertLinearAddr(start)
+	lastBlock, _ := stream.convertLinearAddr(end - 1)
+	numBlocks := uint(lastBlock-firstBlock) + 1
+
+	target, err := stream.data.GetSlice(firstBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+	clear(target[startOffset : startOffset+uint(end-start)])
+	return stream.data.MarkBlockRangeDirty(firstBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
@@ -293,6 +320,8 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		if err != nil {
 			return 0, err
 		}
+	} else if err := stream.zeroFill(stream.size, offset); err != nil {
+		return 0, err
 	}
 
 	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock-startBlock)+1)
-- 
2.43.0


From ed4a01d642c65940ab0fb0bd68f3ebeb83cc3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/59] fix: refuse invalid offsets in BasicStream.ReadAt and
 WriteAt

---
 file_systems/common/basicstream/basicstream.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 935a312..4aadeb7 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -90,6 +90,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't read from negative offset: %d", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
@@ -304,8 +310,16 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, disko.ErrNotPermitted
 	}
 
-	// The address computations below assume we're writing at least one byte.
 	bufLen := int64(len(buffer))
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't write to negative offset: %d", offset),
+		)
+	} else if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge
+	}
+
+	// The address computations below assume we're writing at least one byte.
 	if bufLen == 0 {
 		return 0, nil
 	}
-- 
2.43.0


From 6ff634e510ad67a0ae09886f5c00a081def0fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/59] fix: advance the position of a BasicStream on partial
 reads

---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 4aadeb7..fbcb26c 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From ce4f6171cc30ffaa2cc397944110700f29ef83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 12/59] fix: don't ignore write errors at the end of
 BasicStream.ReadFrom

---
 file_systems/common/basicstream/basicstream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index fbcb26c..9b9ca55 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -155,12 +155,12 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 		totalBytesRead += int64(lastReadSize)
 
 		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
+		if writeErr != nil {
+			return totalBytesRead, writeErr
+		} else if readErr == io.EOF {
 			return totalBytesRead, nil
 		} else if readErr != nil {
 			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
 		}
 	}
 }
-- 
2.43.0


From 89f3f3b3924527ea3b3b6115e58b9e70769bf527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 13/59] fix: don't ignore write errors in BasicStream.WriteTo

---
 file_systems/common/basicstream/basicstream.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 9b9ca55..fe3cac8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -382,8 +382,15 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			bytesWritten, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(bytesWritten)
+
+			if writeErr == nil && bytesWritten < blockSize {
+				writeErr = io.ErrShortWrite
+			}
+			if writeErr != nil {
+				return totalWritten, writeErr
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From b770eb2fa740907943d3c4491214d76dcf386ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 14/59] fix: implement DecompressRLERecursive

---
 utilities/compression/rle8.go | 68 +++++++++++++++++------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..d3f310d 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,51 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		n, err := output.Write([]byte{currentByte})
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+		totalBytesWritten += int64(n)
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+			continue
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		// Got two bytes in a row that are the same. The bytes that follow give
+		// the number of further repetitions; all but the last are 255.
+		lastByteRead = -1
+		for repeatCount := byte(255); repeatCount == 255; {
+			repeatCount, err = source.ReadByte()
 			if err != nil {
-				return totalBytesWritten, err
+				if errors.Is(err, io.EOF) {
+					err = fmt.Errorf(
+						"%w: missing repeat count after two %02x bytes",
+						io.ErrUnexpectedEOF,
+						uint(currentByte),
+					)
+				}
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
 
-			_, err = output.Write([]byte{byte(remainder)})
+			n, err := output.Write(bytes.Repeat([]byte{currentByte}, int(repeatCount)))
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
 			}
-
-			totalBytesWritten++
-		}
-
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
+			totalBytesWritten += int64(n)
 		}
 	}
 }
-- 
2.43.0


From 47f612bd8fdc1b9c56479d3fc36f9fcd42362074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 15/59] fix: reserve the clusters of the directory track when
 formatting FAT8

---
 file_systems/fat8/formattingdriver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..a5e6910 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -86,7 +86,7 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// reserved by putting 0xFE in its cluster entry. (It's always the middle
 	// track.)
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
+	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
 	fat[directoryClusterNumber] = 0xfe
 	fat[directoryClusterNumber+1] = 0xfe
 
-- 
2.43.0


From c181b4b63fdd9bb966e0d5fb35faa5208145aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 16/59] fix: start from a blank image when formatting FAT8

---
 file_systems/fat8/formattingdriver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index a5e6910..35a6e60 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,13 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(0)
+	if err == nil {
+		err = driver.image.Truncate(int64(fileSize))
+	}
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
@@ -91,6 +97,7 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	fat[directoryClusterNumber+1] = 0xfe
 
 	// Write all three copies of the FATs
+	driver.fat = fat
 	allFATs := bytes.Repeat(fat, 3)
 	return driver.WriteDiskBlocks(geo.FATsStart, allFATs)
 }
-- 
2.43.0


From cf7220b208c8471967259ee0fa4996179d291dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 17/59] fix: allow reading the last sector of a FAT8 image

---
 file_systems/fat8/iobase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..4adf1c1 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,7 +10,8 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if count > totalBlocks || uint(start) > totalBlocks-count {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
 			start,
-- 
2.43.0


From abb9495a0ebca47fa9ca5590af4e72c7894196f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 18/59] fix: make mounting FAT8 images work and report
 statistics

---
 file_systems/fat8/driver.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..6e2d39e 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -66,7 +66,16 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	if err != nil {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
+	if offset%128 != 0 {
+		return disko.ErrFileSystemCorrupted.WithMessage(
+			"image size is not a multiple of the sector size")
+	}
 	driver.geometry = geo
+	driver.stat = disko.FSStat{
+		BlockSize:     128,
+		TotalBlocks:   uint64(offset) / 128,
+		MaxNameLength: 10,
+	}
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
@@ -77,12 +86,16 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	driver.fat = fat
 
 	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
 	}
 
+	driver.stat.BlocksFree = uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksAvailable = driver.stat.BlocksFree
+
 	// Get the info sector, which always immediately precedes the FATs. The first
 	// byte of the info sector tells us what the default attributes should be for
 	// new files; the rest is not defined by the standard.
-- 
2.43.0


From 1bfd404e8aa2259eb2c8c82962289fe879dea94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 19/59] fix: address FAT8 clusters consistently

---
 file_systems/fat8/iobase.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 4adf1c1..732d627 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -89,7 +89,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
@@ -137,7 +137,7 @@ func (driver *FAT8Driver) writeFAT() error {
 func (driver *FAT8Driver) ReadFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster,
 ) ([]byte, error) {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return nil, fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
@@ -146,14 +146,13 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster, data []byte,
 ) error {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
-- 
2.43.0


From 70c378931f23599dee2dbf1afe986e6a6e16c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 20/59] fix: refuse FAT8 file names that don't fit in nine
 bytes

---
 file_systems/fat8/common.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..bda5887 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -123,7 +123,12 @@ func FilenameToBytes(name string) ([]byte, error) {
 		paddedName = fmt.Sprintf("%-9s", parts[0])
 	}
 
-	return []byte(strings.ToUpper(paddedName)), nil
+	rawName := []byte(strings.ToUpper(paddedName))
+	if len(rawName) != 9 {
+		return nil, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("filename can only contain single-byte characters: %q", name))
+	}
+	return rawName, nil
 }
 
 // BytesToFilename converts the on-disk representation of a filename into its
-- 
2.43.0


From 210ea6814262e87730235ef3c25c361d0b12a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 21/59] fix: export fields of the FAT boot sector so that it
 can be decoded

---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From dd07d9f356c4f3ccadcc4380161f29b2fc70179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 22/59] fix: validate the FAT boot sector first and compute its
 layout correctly

---
 file_systems/fat/common.go | 57 ++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..7487faf 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -82,29 +82,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
 
-	var sectorsPerFAT uint
-	if rawHeader.SectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
-	} else {
-		sectorsPerFAT = uint(sectorsPerFAT32)
-	}
-
-	var totalSectors uint
-	if rawHeader.TotalSectors16 != 0 {
-		totalSectors = uint(rawHeader.TotalSectors16)
-	} else {
-		totalSectors = uint(rawHeader.TotalSectors32)
-	}
-
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +112,38 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	var sectorsPerFAT uint
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
+	} else {
+		sectorsPerFAT = uint(sectorsPerFAT32)
+	}
+
+	var totalSectors uint
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
+	} else {
+		totalSectors = uint(rawHeader.TotalSectors32)
+	}
+
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	rootDirSectors := uint(
+		((uint(rawHeader.RootEntryCount) * 32) + (uint(rawHeader.BytesPerSector) - 1)) /
+			uint(rawHeader.BytesPerSector))
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	metadataSectors := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if metadataSectors > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: metadata takes up %d sectors but there are only %d",
+			metadataSectors,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+	dataSectors := totalSectors - metadataSectors
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
@@ -177,7 +186,7 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
 		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		FirstDataSector:   SectorID(metadataSectors),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From 76591208e0e06d3fe14d7f0a38acd0afa024d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 23/59] fix: use the right offsets when decoding FAT directory
 entries

---
 file_systems/fat/dirent.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..0740c63 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -226,17 +226,17 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
-- 
2.43.0


From 5395b4f737956fe10a55f71c1d6d4409601a1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 24/59] fix: decode FAT timestamps in local time with the right
 precision

---
 file_systems/fat/dirent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 0740c63..3dce35e 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -175,7 +175,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -192,10 +192,10 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0


From 7c28c73715e67be4adfdc3dd7633918f9e668fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 25/59] fix: don't panic on FAT directory entries with a blank
 name

---
 file_systems/fat/dirent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 3dce35e..fa6af6b 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -302,14 +302,14 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if rawDirent.Name[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-	} else if trimmedName[0] == 0x05 {
+	} else if rawDirent.Name[0] == 0x05 {
 		// First character of the filename is E5.
 		trimmedName = "\xe5" + trimmedName[1:]
-	} else if trimmedName[0] == 0 {
+	} else if rawDirent.Name[0] == 0 {
 		// This directory entry is free and thus invalid.
 		return Dirent{}, disko.ErrNotFound
 	}
-- 
2.43.0


From 2bb92cc8c729eb7eebda211f13eca0f2aa23bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 26/59] fix: convert FAT attributes to Go file modes

---
 file_systems/fat/dirent.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index fa6af6b..73c8f5c 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -199,24 +199,22 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// [os.FileInfo.Mode].
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
-- 
2.43.0


From 47704e60bab41c1b3ae7f2561ed71622376306c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 27/59] fix: read whole FAT clusters from the right location

---
 file_systems/fat/driverbase.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..8700136 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -36,22 +36,22 @@ type FATDriver struct {
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
 	bootSector := drv.fs.GetBootSector()
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
+	if err != nil && !(err == io.EOF && nRead == len(buffer)) {
 		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	} else if nRead < len(buffer) {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
 
 	return buffer, nil
-- 
2.43.0


From 08a6bb7f7d7ead91b8f6813b317006a56c817761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 28/59] fix: recognize the end of FAT cluster chains and detect
 cycles

---
 file_systems/fat/driverbase.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 8700136..6f6d28b 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -73,16 +73,26 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
-	if !drv.fs.IsValidCluster(chainStart) {
+	if !drv.fs.IsValidCluster(chainStart) && !drv.fs.IsEndOfChain(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
 
 	chain := []ClusterID{}
+	visited := map[ClusterID]bool{}
 	currentCluster := chainStart
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if visited[currentCluster] {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf(
+					"chain from %d has a cycle: cluster %d occurs again at index %d",
+					chainStart,
+					currentCluster,
+					i))
+		}
+		visited[currentCluster] = true
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -90,7 +100,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsValidCluster(nextCluster) && !drv.fs.IsEndOfChain(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
-- 
2.43.0


From 3838c52c619dad414c247940923a5c9cb9b5a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 29/59] fix: resolve paths in FAT file systems component by
 component

---
 file_systems/fat/driverbase.go | 65 ++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 6f6d28b..d5c965e 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -173,35 +174,33 @@ func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, e
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
-
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
+	cleanedPath := filepath.ToSlash(filepath.Clean("/" + path))
+
+	// The root directory has no directory entry, and is represented by one with
+	// cluster 0 everywhere else (i.e. `..` in its subdirectories).
+	currentDirent := Dirent{mode: AttrFlagsToFileMode(AttrDirectory)}
+	currentDirent.stat.ModeFlags = currentDirent.mode
+	if cleanedPath == "/" {
+		return currentDirent, nil
 	}
 
-	// Get a listing for the root directory. We need to call a separate function because
-	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
-	// Drivers must give us a list of directory entries in the root directory.
-	currentDirContents, err := drv.fs.ListRootDirectory()
-	if err != nil {
-		return Dirent{}, nil
-	}
-
-	var currentDirent Dirent
+	for _, component := range strings.Split(cleanedPath[1:], "/") {
+		currentDirContents, err := drv.readDirFromDirent(&currentDirent)
+		if err != nil {
+			return Dirent{}, err
+		}
 
-	for _, component := range pathParts {
+		found := false
 		for _, entry := range currentDirContents {
 			if entry.name == component {
 				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
+				found = true
+				break
 			}
 		}
+		if !found {
+			return Dirent{}, disko.ErrNotFound.WithMessage(path)
+		}
 	}
 
 	return currentDirent, nil
@@ -214,6 +213,17 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	// Get a listing for the root directory. We need to call a separate function because
+	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
+	// Drivers must give us a list of directory entries in the root directory.
+	if directoryDirent.FirstCluster == 0 {
+		rootDirents, err := drv.fs.ListRootDirectory()
+		if err != nil {
+			return nil, err
+		}
+		return withoutDeleted(rootDirents), nil
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
@@ -237,7 +247,18 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		i++
 	}
 
-	return allDirents, nil
+	return withoutDeleted(allDirents), nil
+}
+
+// withoutDeleted returns all directory entries that aren't marked as deleted.
+func withoutDeleted(dirents []Dirent) []Dirent {
+	existing := []Dirent{}
+	for _, dirent := range dirents {
+		if !dirent.isDeleted {
+			existing = append(existing, dirent)
+		}
+	}
+	return existing
 }
 
 //////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6008de15bc66a744b31d339e51502317a683c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 30/59] fix: allow FAT directories that fill their last cluster

---
 file_systems/fat/driverbase.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index d5c965e..b53b8bd 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -227,9 +227,13 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	clusters, err := drv.listClusters(directoryDirent.FirstCluster)
+	if err != nil {
+		return nil, err
+	}
+
+	for i := range clusters {
+		clusterData, err := drv.readClusterOfDirent(directoryDirent, uint(i))
 		if err != nil {
 			return nil, err
 		}
@@ -243,8 +247,6 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return withoutDeleted(allDirents), nil
-- 
2.43.0


From bc7b97232f9a56192912f0259226a7e94c9c65dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 31/59] fix: read exactly the size of a FAT file

---
 file_systems/fat/driverbase.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index b53b8bd..c76fe9a 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -322,6 +322,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
+	// Empty files have no clusters.
+	if dirent.size == 0 {
+		return []byte{}, nil
+	}
+
 	allClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return nil, err
@@ -356,6 +361,14 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		}
 
 		bytesRemaining -= int64(bs.BytesPerCluster)
+		if bytesRemaining <= 0 {
+			break
+		}
+	}
+
+	if bytesRemaining > 0 {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf("cluster chain is too short, missing %d bytes", bytesRemaining))
 	}
 
 	return buffer.Bytes(), nil
-- 
2.43.0


From 609059b2d4bb87a10800f8e2990198052aa75018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 32/59] fix: free the clusters of removed FAT files

---
 file_systems/fat/driverbase.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c76fe9a..ff50aa8 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -462,7 +462,7 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(filepath.Clean(path)))
 	if err != nil {
 		return err
 	}
@@ -476,6 +476,11 @@ func (drv *FATDriver) Remove(path string) error {
 		return err
 	}
 
+	// Empty files have no clusters.
+	if dirent.FirstCluster == 0 {
+		return nil
+	}
+
 	// Successfully deleted the directory entry. Now we release its clusters.
 	fileClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
@@ -486,7 +491,7 @@ func (drv *FATDriver) Remove(path string) error {
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 64f59adb37a3d185b868d36d835a6dcad3b54400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 33/59] fix: forward calls on wrapped object handles

---
 driver/fsobject.go | 137 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 132 insertions(+), 5 deletions(-)

diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..88506a8 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -1,6 +1,12 @@
 package driver
 
-import "github.com/dargueta/disko"
+import (
+	"os"
+	"time"
+
+	"github.com/dargueta/disko"
+	"github.com/dargueta/disko/file_systems/common"
+)
 
 type extObjectHandle interface {
 	disko.ObjectHandle
@@ -8,15 +14,19 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
+	isClosed     bool
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an object handle with its absolute path.
+//
+// The wrapper forwards all operations to `handle`, including those from optional
+// interfaces such as [disko.SupportsListDirHandle]. It also ensures that `handle`
+// is never used once it's been closed.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
@@ -24,3 +34,120 @@ func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectH
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
+
+func (xh *tExtObjectHandle) Close() error {
+	if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	xh.isClosed = true
+	return xh.ObjectHandle.Close()
+}
+
+func (xh *tExtObjectHandle) Stat() disko.FileStat {
+	if xh.isClosed {
+		return disko.FileStat{}
+	}
+	return xh.ObjectHandle.Stat()
+}
+
+func (xh *tExtObjectHandle) Name() string {
+	if xh.isClosed {
+		return ""
+	}
+	return xh.ObjectHandle.Name()
+}
+
+func (xh *tExtObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return !xh.isClosed && xh.ObjectHandle.SameAs(other)
+}
+
+func (xh *tExtObjectHandle) Resize(newSize uint64) disko.DriverError {
+	if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return xh.ObjectHandle.Resize(newSize)
+}
+
+func (xh *tExtObjectHandle) ReadBlocks(
+	index common.LogicalBlock, buffer []byte,
+) disko.DriverError {
+	if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return xh.ObjectHandle.ReadBlocks(index, buffer)
+}
+
+func (xh *tExtObjectHandle) WriteBlocks(
+	index common.LogicalBlock, data []byte,
+) disko.DriverError {
+	if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return xh.ObjectHandle.WriteBlocks(index, data)
+}
+
+func (xh *tExtObjectHandle) ZeroOutBlocks(
+	startIndex common.LogicalBlock, count uint,
+) disko.DriverError {
+	if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return xh.ObjectHandle.ZeroOutBlocks(startIndex, count)
+}
+
+func (xh *tExtObjectHandle) Unlink() disko.DriverError {
+	if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return xh.ObjectHandle.Unlink()
+}
+
+// ListDir implements [disko.SupportsListDirHandle].
+func (xh *tExtObjectHandle) ListDir() ([]string, disko.DriverError) {
+	handle, ok := xh.ObjectHandle.(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotImplemented
+	} else if xh.isClosed {
+		return nil, disko.ErrFileDescriptorBadState
+	}
+	return handle.ListDir()
+}
+
+// Chmod implements [disko.SupportsChmodHandle].
+func (xh *tExtObjectHandle) Chmod(mode os.FileMode) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChmodHandle)
+	if !ok {
+		return disko.ErrNotImplemented
+	} else if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return handle.Chmod(mode)
+}
+
+// Chown implements [disko.SupportsChownHandle].
+func (xh *tExtObjectHandle) Chown(uid, gid int) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChownHandle)
+	if !ok {
+		return disko.ErrNotImplemented
+	} else if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return handle.Chown(uid, gid)
+}
+
+// Chtimes implements [disko.SupportsChtimesHandle].
+func (xh *tExtObjectHandle) Chtimes(
+	createdAt,
+	lastAccessed,
+	lastModified,
+	lastChanged,
+	deletedAt time.Time,
+) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChtimesHandle)
+	if !ok {
+		return disko.ErrNotImplemented
+	} else if xh.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+	return handle.Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt)
+}
-- 
2.43.0


From c203cd065c83f5eea77e56641bc6a8361970a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 34/59] fix: resolve empty relative paths from the working
 directory

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..156e616 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From 5aff0550e44096c23f2c5e20eeae9ef608bfee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 35/59] fix: stop endless recursion when looking up nested
 paths

---
 driver/driver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 156e616..5653d8c 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -122,10 +122,12 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 ) (extObjectHandle, disko.DriverError) {
 	if path == "/" || path == "" {
 		root := driver.implementation.GetRootDirectory()
-		return wrapObjectHandle(root, path), nil
+		return wrapObjectHandle(root, "/"), nil
 	}
 
-	parentPath, baseName := posixpath.Split(path)
+	// Directory paths may have a trailing slash, which would give us an empty
+	// base name.
+	parentPath, baseName := posixpath.Split(posixpath.Clean(path))
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 239ddd0a7568ef501a11e5fdf8c14e2b07c08c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 36/59] fix: resolve relative symlinks from their directory and
 detect all cycles

---
 driver/driver.go | 72 +++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 5653d8c..e24dd04 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -22,6 +22,9 @@ type BaseDriver struct {
 	implementation disko.FileSystemImplementer
 	mountFlags     disko.MountFlags
 	workingDirPath string
+	// activeLinks contains the absolute paths of all symbolic links that are
+	// currently being resolved. Needing one of these to resolve itself is a cycle.
+	activeLinks map[string]bool
 }
 
 // New creates a new [BaseDriver] from the given implementation.
@@ -33,6 +36,7 @@ func New(
 		implementation: impl,
 		mountFlags:     mountFlags,
 		workingDirPath: "/",
+		activeLinks:    make(map[string]bool),
 	}
 }
 
@@ -49,7 +53,8 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
-// isn't a symlink, this becomes a no-op and returns the handle unmodified.
+// isn't a symlink, this becomes a no-op and returns the handle unmodified. If it
+// is a symlink, its handle is closed.
 func (driver *BaseDriver) resolveSymlink(
 	object extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
@@ -58,16 +63,28 @@ func (driver *BaseDriver) resolveSymlink(
 		return object, nil
 	}
 
-	// Symbolic links can result in cycles, so we need to keep track of all the
-	// paths we visit. If we resolve a symlink to a path that's already in the
-	// dictionary, we found a loop and must fail.
-	pathCache := make(map[string]bool)
-
 	originalPath := object.AbsolutePath()
 	currentPath := originalPath
-	pathCache[currentPath] = true
 
 	for stat.IsSymlink() {
+		// Symbolic links can result in cycles, so we need to keep track of all
+		// the links we're resolving, including those in the directories leading
+		// to this one. If we need to resolve a symlink that's already in the
+		// dictionary, we found a loop and must fail.
+		if driver.activeLinks[currentPath] {
+			object.Close()
+			return nil,
+				disko.ErrLinkCycleDetected.WithMessage(
+					fmt.Sprintf(
+						"found cycle resolving symlink %q: hit %q twice",
+						originalPath,
+						currentPath,
+					),
+				)
+		}
+		driver.activeLinks[currentPath] = true
+		defer delete(driver.activeLinks, currentPath)
+
 		symlinkText, err := driver.getContentsOfObject(object)
 		object.Close()
 
@@ -83,20 +100,8 @@ func (driver *BaseDriver) resolveSymlink(
 				)
 		}
 
-		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
-		_, exists := pathCache[nextPath]
-		if exists {
-			return nil,
-				disko.ErrLinkCycleDetected.WithMessage(
-					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
-						originalPath,
-						nextPath,
-					),
-				)
-		}
+		// Compute the next path in this chain.
+		nextPath := driver.symlinkTarget(currentPath, string(symlinkText))
 
 		// Get the object at the next path but don't dereference it.
 		object, err = driver.getObjectAtPathNoFollow(nextPath)
@@ -106,12 +111,22 @@ func (driver *BaseDriver) resolveSymlink(
 
 		// Update the latest path and file stats for the next loop iteration.
 		stat = object.Stat()
-		currentPath = nextPath
+		currentPath = object.AbsolutePath()
 	}
 
 	return object, nil
 }
 
+// symlinkTarget returns the normalized absolute path of the target of a symlink,
+// given the absolute path of the link itself and its contents.
+func (driver *BaseDriver) symlinkTarget(linkPath string, text string) string {
+	text = filepath.ToSlash(text)
+	if !posixpath.IsAbs(text) {
+		text = posixpath.Join(posixpath.Dir(linkPath), text)
+	}
+	return driver.NormalizePath(text)
+}
+
 // getObjectAtPathNoFollow resolves a normalized absolute path to an object
 // handle. It follows symbolic links for intermediate directories, but does *not*
 // follow the final path component if it's a symbolic link.
@@ -159,18 +174,7 @@ func (driver *BaseDriver) getObjectAtPathFollowingLink(
 		return nil, err
 	}
 
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
-- 
2.43.0


From 13d81ce7ba66e620c359da06906bbf89e8f7feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 37/59] fix: don't follow symlinks in Lstat

---
 driver/driver.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index e24dd04..a75a38c 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -543,15 +543,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From 9d40ee3ee1eb6f6d51208798b9557445ba1ecc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 38/59] fix: close object handles once they're no longer needed

---
 driver/driver.go | 15 ++++++++++++---
 driver/file.go   |  7 ++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index a75a38c..aca8806 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -179,7 +179,7 @@ func (driver *BaseDriver) getObjectAtPathFollowingLink(
 
 // getContentsOfObject returns the contents of an object as it exists on the
 // file system, regardless of whether it's a file or directory. Symbolic links
-// are not followed.
+// are not followed. The caller is responsible for closing `object`.
 func (driver *BaseDriver) getContentsOfObject(
 	object extObjectHandle,
 ) ([]byte, disko.DriverError) {
@@ -187,7 +187,6 @@ func (driver *BaseDriver) getContentsOfObject(
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
@@ -294,10 +293,16 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+		return File{}, err
+	}
+	return file, nil
 }
 
 func (driver *BaseDriver) Chdir(path string) error {
@@ -330,6 +335,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmodObject, ok := object.(disko.SupportsChmodHandle)
 	if !ok {
@@ -344,6 +350,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := object.(disko.SupportsChownHandle)
 	if !ok {
@@ -361,6 +368,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := object.(disko.SupportsChownHandle)
 	if !ok {
@@ -375,6 +383,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := object.(disko.SupportsChtimesHandle)
 	if !ok {
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..dbea1b0 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -160,7 +160,12 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	err := file.BasicStream.Close()
+	closeErr := file.objectHandle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From e1ea5480742517e6bd34ad062d11ba3e673f08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 39/59] fix: refuse to modify images mounted without the
 required permissions

---
 driver/driver.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++++
 driver/file.go   |  8 ++++++
 2 files changed, 73 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index aca8806..2791748 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -231,6 +231,27 @@ func (driver *BaseDriver) createExtObject(
 	return object, nil
 }
 
+// checkWritable returns an error if the image is mounted read-only.
+func (driver *BaseDriver) checkWritable(path string) error {
+	if !driver.mountFlags.CanWrite() {
+		return disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf("can't modify %q: image is mounted read-only", path),
+		)
+	}
+	return nil
+}
+
+// checkDeletable returns an error if nothing can be deleted from the image.
+func (driver *BaseDriver) checkDeletable(path string) error {
+	err := driver.checkWritable(path)
+	if err == nil && !driver.mountFlags.CanDelete() {
+		err = disko.ErrNotPermitted.WithMessage(
+			fmt.Sprintf("can't delete %q: image is mounted without delete permission", path),
+		)
+	}
+	return err
+}
+
 // OpenFile opens a file for I/O.
 func (driver *BaseDriver) OpenFile(
 	path string,
@@ -260,6 +281,10 @@ func (driver *BaseDriver) OpenFile(
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				if err = driver.checkWritable(absPath); err != nil {
+					return File{}, err
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -330,6 +355,10 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 }
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
+	if err := driver.checkWritable(name); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -345,6 +374,10 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
+	if err := driver.checkWritable(name); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -363,6 +396,10 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // [BaseDriver.getObjectAtPathNoFollow] instead of [BaseDriver.getObjectAtPathFollowingLink].
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
+	if err := driver.checkWritable(name); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
@@ -378,6 +415,10 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 }
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
+	if err := driver.checkWritable(name); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -487,6 +528,10 @@ func (driver *BaseDriver) readDir(
 }
 
 func (driver *BaseDriver) Link(oldname, newname string) error {
+	if err := driver.checkWritable(newname); err != nil {
+		return err
+	}
+
 	linker, ok := driver.implementation.(disko.HardLinkImplementer)
 	if !ok {
 		return disko.ErrNotSupported
@@ -594,6 +639,10 @@ func removeDotsFromSlice(arr []string) []string {
 }
 
 func (driver *BaseDriver) Remove(path string) error {
+	if err := driver.checkDeletable(path); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(path)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -631,6 +680,10 @@ func (driver *BaseDriver) Remove(path string) error {
 
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
+	if err := driver.checkWritable(path); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(path)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -667,6 +720,10 @@ func (driver *BaseDriver) WriteFile(
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
+	if err := driver.checkWritable(path); err != nil {
+		return err
+	}
+
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
 	perm &^= os.ModeType
@@ -700,6 +757,10 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 }
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
+	if err := driver.checkWritable(path); err != nil {
+		return err
+	}
+
 	absPath := driver.NormalizePath(path)
 	parentDir, baseName := posixpath.Split(absPath)
 
@@ -728,6 +789,10 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
+	if err := driver.checkDeletable(path); err != nil {
+		return err
+	}
+
 	path = driver.NormalizePath(path)
 	directory, err := driver.getObjectAtPathFollowingLink(path)
 	if err != nil {
diff --git a/driver/file.go b/driver/file.go
index dbea1b0..50ef131 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,6 +144,10 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	if err := file.owningDriver.checkWritable(file.Name()); err != nil {
+		return err
+	}
+
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
@@ -152,6 +156,10 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	if err := file.owningDriver.checkWritable(file.Name()); err != nil {
+		return err
+	}
+
 	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From b2928b0428b9d26555213114d138397eb6a59d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 40/59] fix: honor O_EXCL and dangling symlinks when creating
 files

---
 driver/driver.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 2791748..c375c5a 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -212,6 +212,37 @@ func (driver *BaseDriver) getExtObjectInDir(
 	return wrapObjectHandle(object, absPath), nil
 }
 
+// followDanglingLinks returns the path of the object that needs to be created
+// for `path` to exist, following all symbolic links. If `exclusive` is true then
+// it's an error for `path` to be a symbolic link.
+func (driver *BaseDriver) followDanglingLinks(
+	path string, exclusive bool,
+) (string, disko.DriverError) {
+	for {
+		object, err := driver.getObjectAtPathNoFollow(path)
+		if errors.Is(err, disko.ErrNotFound) {
+			return path, nil
+		} else if err != nil {
+			return "", err
+		}
+
+		var contents []byte
+		linkPath := object.AbsolutePath()
+		stat := object.Stat()
+		if exclusive || !stat.IsSymlink() {
+			err = disko.ErrExists.WithMessage(path)
+		} else {
+			contents, err = driver.getContentsOfObject(object)
+		}
+		object.Close()
+
+		if err != nil {
+			return "", err
+		}
+		path = driver.symlinkTarget(linkPath, string(contents))
+	}
+}
+
 // createExtObject is a wrapper around [DriverImplementation.CreateObject] that
 // returns an [extObjectHandle].
 func (driver *BaseDriver) createExtObject(
@@ -275,6 +306,10 @@ func (driver *BaseDriver) OpenFile(
 	var err error
 
 	object, err = driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil && ioFlags.Create() && ioFlags.Exclusive() {
+		object.Close()
+		return File{}, disko.ErrExists.WithMessage(absPath)
+	}
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
 		// and proceed.
@@ -285,6 +320,13 @@ func (driver *BaseDriver) OpenFile(
 					return File{}, err
 				}
 
+				// If the path is a dangling symlink, the file to create is
+				// what it points to.
+				absPath, err = driver.followDanglingLinks(absPath, ioFlags.Exclusive())
+				if err != nil {
+					return File{}, err
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -298,7 +340,7 @@ func (driver *BaseDriver) OpenFile(
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
-					perm,
+					perm&^os.ModeType,
 				)
 				parentObject.Close()
 
@@ -316,8 +358,10 @@ func (driver *BaseDriver) OpenFile(
 		}
 	}
 
+	// Directories can only be opened for listing their contents.
 	stat := object.Stat()
-	if !stat.IsFile() {
+	canOpenDir := !ioFlags.RequiresWritePerm() && !ioFlags.Create()
+	if !stat.IsFile() && !(stat.IsDir() && canOpenDir) {
 		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
-- 
2.43.0


From 335dbb8f4b107a0308115cea5559a1ea3d386011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 41/59] fix: make Mkdir and MkdirAll handle existing objects
 and missing parents

---
 driver/driver.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index c375c5a..69592a1 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -776,6 +776,14 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
 	parentDir, baseName := posixpath.Split(absPath)
 
+	existing, err := driver.getObjectAtPathNoFollow(absPath)
+	if err == nil {
+		existing.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
 	if err != nil {
 		return err
@@ -806,30 +814,26 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
 
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
-
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+	existing, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		stat := existing.Stat()
+		existing.Close()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		// Different error, we won't handle it.
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
-	if err == nil {
-		object.Close()
+	// The directory doesn't exist, and its parent may not exist either.
+	parentErr := driver.MkdirAll(posixpath.Dir(absPath), perm)
+	if parentErr != nil {
+		return parentErr
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From 251cffd5e47d131c7c07a8a2e55b8f99769906e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 42/59] fix: remove symlinks instead of their targets, and
 never the root directory

---
 driver/driver.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 69592a1..ef05378 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -688,12 +688,18 @@ func (driver *BaseDriver) Remove(path string) error {
 	}
 
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
 	defer object.Close()
 
+	if object.AbsolutePath() == "/" {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
 	stat := object.Stat()
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
@@ -713,7 +719,7 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
 		)
-- 
2.43.0


From 302f81254cf687a9c7b10d4bada5c1195091aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 43/59] fix: remove the directory itself in RemoveAll, and
 don't follow symlinks

---
 driver/driver.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index ef05378..f5774b6 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -848,7 +848,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 	}
 
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
@@ -861,16 +861,23 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(directory) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+	// The directory must be empty now.
+	return directory.Unlink()
 }
 
-// removeDirectory is equivalent to `rm -rf` for a directory handle.
+// removeDirectory deletes everything inside a directory, but not the directory
+// itself.
 //
 // Deletion is depth-first, and terminates on the first error encountered.
 // Ownership and other permissions are not checked.
-- 
2.43.0


From 3348be13f77fa1f221e5b8edb496eef751c44fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 44/59] fix: check both ends of a hard link before creating it

---
 driver/driver.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index f5774b6..8ddb5bf 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -586,15 +586,25 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer oldHandle.Close()
+
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrNotPermitted.WithMessage(
+			"can't create a hard link to a directory: " + absOld)
+	}
 
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	existing, err := driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
+		existing.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
 
 	targetParentPath, targetName := posixpath.Split(absNew)
@@ -602,9 +612,14 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer parentHandle.Close()
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
-	return err
+	newHandle, err := linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	if err != nil {
+		return err
+	}
+	newHandle.Close()
+	return nil
 }
 
 func (driver *BaseDriver) Readlink(path string) (string, error) {
-- 
2.43.0


From ac52750dac0fd18b60c9254609c0ae36b7eddffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 45/59] fix: refuse to list non-directories and complete
 directory entries

---
 driver/dirent.go | 4 ++++
 driver/driver.go | 5 +++++
 driver/file.go   | 6 +++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..969516e 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -54,3 +54,7 @@ func (dirent DirectoryEntry) ModTime() time.Time {
 func (dirent DirectoryEntry) Sys() any {
 	return dirent.stat
 }
+
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
diff --git a/driver/driver.go b/driver/driver.go
index 8ddb5bf..7ed2717 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -546,6 +546,11 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
+	stat := directory.Stat()
+	if !stat.IsDir() {
+		return nil, disko.ErrNotADirectory.WithMessage(directory.AbsolutePath())
+	}
+
 	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
 	if err != nil {
 		return nil, err
diff --git a/driver/file.go b/driver/file.go
index 50ef131..dfe3282 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -209,10 +209,14 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 
 	result := make([]os.DirEntry, numToCopy)
 
-	// If there are no entries remaining, return an empty slice and io.EOF.
+	// If there are no entries remaining, return an empty slice and io.EOF. If
+	// the caller asked for everything then this isn't an error.
 	if entriesRemaining == 0 {
 		file.lastReadDirResult = nil
 		file.readDirResultPointer = 0
+		if n <= 0 {
+			return result, nil
+		}
 		return result, io.EOF
 	}
 
-- 
2.43.0


From d7c05a59a9da8e13f6d65c88ebfdd80fb7439d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 46/59] fix: keep the size of open files in sync with their
 objects

---
 driver/file.go | 46 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index dfe3282..500d28a 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -91,6 +91,8 @@ type File struct {
 	objectHandle extObjectHandle
 	fileInfo     FileInfo
 	ioFlags      disko.IOFlags
+	// objectSize is the size of the object, as last seen or set by this file.
+	objectSize *int64
 
 	lastReadDirResult    []disko.DirectoryEntry
 	readDirResultPointer int
@@ -109,11 +111,21 @@ func NewFileFromObjectHandle(
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.WriteBlocks(index, buffer)
 	}
-	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
-	}
 
 	stat := object.Stat()
+	objectSize := stat.Size
+
+	// Only whole blocks can be resized here. The exact size of the object is set
+	// when syncing the file.
+	resizeCb := func(newSize common.LogicalBlock) error {
+		newSizeBytes := uint64(newSize) * uint64(stat.BlockSize)
+		err := object.Resize(newSizeBytes)
+		if err != nil {
+			return err
+		}
+		objectSize = int64(newSizeBytes)
+		return nil
+	}
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
@@ -131,6 +143,7 @@ func NewFileFromObjectHandle(
 		owningDriver: driver,
 		objectHandle: object,
 		ioFlags:      ioFlags,
+		objectSize:   &objectSize,
 		BasicStream:  stream,
 		fileInfo: FileInfo{
 			FileStat:     stat,
@@ -168,7 +181,7 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	err := file.BasicStream.Close()
+	err := file.Sync()
 	closeErr := file.objectHandle.Close()
 	if err != nil {
 		return err
@@ -176,6 +189,27 @@ func (file *File) Close() error {
 	return closeErr
 }
 
+// Sync writes out all pending changes to the underlying storage, including the
+// size of the file.
+func (file *File) Sync() error {
+	err := file.BasicStream.Sync()
+	if err != nil {
+		return err
+	}
+
+	newSize := file.BasicStream.Size()
+	if newSize == *file.objectSize {
+		return nil
+	}
+
+	resizeErr := file.objectHandle.Resize(uint64(newSize))
+	if resizeErr != nil {
+		return resizeErr
+	}
+	*file.objectSize = newSize
+	return nil
+}
+
 func (file *File) Name() string {
 	return file.objectHandle.Name()
 }
@@ -271,5 +305,7 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
-	return file.fileInfo.Info()
+	info := file.fileInfo
+	info.FileStat.Size = file.BasicStream.Size()
+	return info.Info()
 }
-- 
2.43.0


From 2598b079e122a105cd4ef6b1d61e784aefaa2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 47/59] fix: report errors closing the file in WriteFile

---
 driver/driver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 7ed2717..f02fd89 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -783,10 +783,13 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
 
 	_, err = handle.Write(data)
-	return err
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
-- 
2.43.0


From bc4cb624e64a34697df64373b1077564d61c894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 48/59] fix: pass only permission bits to Chmod implementations

---
 driver/driver.go | 5 ++++-
 driver/file.go   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index f02fd89..c130970 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -398,6 +398,9 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 	return nil
 }
 
+// permissionBits are the only mode flags that can be changed by Chmod.
+const permissionBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky
+
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err := driver.checkWritable(name); err != nil {
 		return err
@@ -414,7 +417,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode & permissionBits)
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index 500d28a..77489a9 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -163,7 +163,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode & permissionBits)
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From 36680ec267d1f19b7accc33881f5ed4b36ce8729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 49/59] fix: decode the high byte of Unix V6 file sizes
 correctly

---
 file_systems/unixv6/dirents.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index cdcaa12..f849a8a 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -123,9 +123,10 @@ func RawInodeToStat(inumber Inumber, inode RawInode) (disko.FileStat, error) {
 		return disko.FileStat{}, err
 	}
 
-	size := uint(inode.Size[0]) |
-		(uint(inode.Size[1]) << 8) |
-		(uint(inode.Size[2]) << 16)
+	// The high byte of the size is stored on its own, before the low word.
+	size := uint(inode.Size[1]) |
+		(uint(inode.Size[2]) << 8) |
+		(uint(inode.Size[0]) << 16)
 
 	blocks := size / 512
 	if size%512 != 0 {
-- 
2.43.0


From f2a37d8303725588dd51d33f62b96188f04fe7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 50/59] fix: refuse blank FAT8 file names

---
 file_systems/fat8/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index bda5887..71dc6b6 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -128,6 +128,10 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("filename can only contain single-byte characters: %q", name))
 	}
+	if len(bytes.TrimRight(rawName, " ")) == 0 {
+		return nil, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("filename must not be blank: %q", name))
+	}
 	return rawName, nil
 }
 
-- 
2.43.0


From 5fb0074efbf7f507d12b07e9af55edc9f0d7ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 51/59] fix: don't create files when opening them can't succeed

---
 driver/driver.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index c130970..96b2c67 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -301,6 +301,13 @@ func (driver *BaseDriver) OpenFile(
 		)
 	}
 
+	// This can't work, so don't create the file first.
+	if ioFlags.Truncate() && !ioFlags.Write() {
+		return File{}, disko.ErrNotPermitted.WithMessage(
+			fmt.Sprintf("can't truncate %q: file isn't opened for writing", absPath),
+		)
+	}
+
 	var object extObjectHandle
 	var parentObject extObjectHandle
 	var err error
-- 
2.43.0


From 4f4305094d1e939bb1e0332e02157905c20c7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 52/59] fix: store the exact size of files opened with O_SYNC

---
 driver/file.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/driver/file.go b/driver/file.go
index 77489a9..4642ae0 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -196,7 +196,11 @@ func (file *File) Sync() error {
 	if err != nil {
 		return err
 	}
+	return file.storeSize()
+}
 
+// storeSize sets the size of the object to the size of the file.
+func (file File) storeSize() error {
 	newSize := file.BasicStream.Size()
 	if newSize == *file.objectSize {
 		return nil
@@ -210,6 +214,39 @@ func (file *File) Sync() error {
 	return nil
 }
 
+// syncSize completes an operation on a file opened with [disko.O_SYNC], given
+// the error of the operation.
+func (file File) syncSize(err error) error {
+	if err != nil || !file.ioFlags.Synchronous() {
+		return err
+	}
+	return file.storeSize()
+}
+
+func (file File) Write(data []byte) (int, error) {
+	n, err := file.BasicStream.Write(data)
+	return n, file.syncSize(err)
+}
+
+func (file File) WriteAt(data []byte, offset int64) (int, error) {
+	n, err := file.BasicStream.WriteAt(data, offset)
+	return n, file.syncSize(err)
+}
+
+func (file File) WriteString(s string) (int, error) {
+	n, err := file.BasicStream.WriteString(s)
+	return n, file.syncSize(err)
+}
+
+func (file File) ReadFrom(r io.Reader) (int64, error) {
+	n, err := file.BasicStream.ReadFrom(r)
+	return n, file.syncSize(err)
+}
+
+func (file File) Truncate(size int64) error {
+	return file.syncSize(file.BasicStream.Truncate(size))
+}
+
 func (file *File) Name() string {
 	return file.objectHandle.Name()
 }
-- 
2.43.0


From f2a5168888f0f3f02a128f313ec01d77722bfbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 53/59] fix: don't mistake a stream's own "unexpected EOF"
 error for its end

---
 file_systems/common/blockcache/blockcache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index b21df16..a4ba37a 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -125,8 +125,14 @@ func WrapStream(
 
 		if read {
 			var n int
-			n, err = io.ReadFull(stream, buffer)
-			if err == io.EOF || err == io.ErrUnexpectedEOF {
+			for n < len(buffer) && err == nil {
+				var chunk int
+				chunk, err = stream.Read(buffer[n:])
+				n += chunk
+			}
+			if n == len(buffer) {
+				err = nil
+			} else if err == io.EOF {
 				// Anything past the end of the stream is treated as nulls.
 				clear(buffer[n:])
 				err = nil
-- 
2.43.0


From 9635ee99789483e2890f872b1c678845187afe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 54/59] fix: FAT SameFile panicked because Sys returns the
 file's status

---
 file_systems/fat/driverbase.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index ff50aa8..4be43fd 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -278,10 +278,10 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft, leftOk := fi1.Sys().(disko.FileStat)
+	statRight, rightOk := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	return leftOk && rightOk && statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From 79b5c21dbe2985204387bc34e07a515f345661d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 55/59] fix: FAT Chtimes reports times that can't be
 represented

---
 file_systems/fat/driverbase.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 4be43fd..f0faa1e 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -431,8 +431,14 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From 737838246622a29fa610972e13f18e300420e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 56/59] fix: FAT Chmod changes the read-only attribute and all
 copies of the mode

---
 file_systems/fat/driverbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index f0faa1e..0b31790 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -411,9 +411,12 @@ func (drv *FATDriver) Chmod(path string, mode os.FileMode) error {
 	if (mode & 0b010010010) == 0 {
 		// No one has write access
 		dirent.stat.ModeFlags &= ^os.FileMode(0b010010010)
+		dirent.AttributeFlags |= AttrReadOnly
 	} else {
 		dirent.stat.ModeFlags |= 0b010010010
+		dirent.AttributeFlags &= ^AttrReadOnly
 	}
+	dirent.mode = dirent.stat.ModeFlags
 
 	return drv.fs.UpdateDirent(&dirent)
 }
-- 
2.43.0


From b1505f897a3612871497c019084346e557156063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 57/59] fix: FAT SetDeletedAt sets the time of deletion instead
 of failing

---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 73c8f5c..63a3256 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -162,7 +162,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
-- 
2.43.0


From 98a71f475a6713d2abf101ee656075df61325c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 58/59] fix: errors made by NewError keep their message when
 derived from

NewError("a").WithMessage("b") read just "b", and casting an error prefixed
its text with an empty message.
---
 errors.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index b4fe158..35731ee 100644
--- a/errors.go
+++ b/errors.go
@@ -69,16 +69,24 @@ func (e baseDiskoError) RootCause() DriverError {
 	return e
 }
 
+// prepend adds the error's own message, if it has one, to another message.
+func (e baseDiskoError) prepend(message string) string {
+	if e == "" {
+		return message
+	}
+	return fmt.Sprintf("%s: %s", e.Error(), message)
+}
+
 func (e baseDiskoError) WithMessage(message string) DriverError {
 	return customDriverError{
-		message:       message,
+		message:       e.prepend(message),
 		originalError: e,
 	}
 }
 
 func (e baseDiskoError) Wrap(err error) DriverError {
 	return customDriverError{
-		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
+		message:       e.prepend(err.Error()),
 		originalError: multierror.Append(e, err),
 	}
 }
-- 
2.43.0


From ec2b17df92c0704174f905a3bcb0109c11674f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:32 +0000
Subject: [PATCH 59/59] fix: closing or comparing a NopObjectHandle
 dereferences a nil handle

---
 driver/nopobject.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/driver/nopobject.go b/driver/nopobject.go
index 2c34e6f..5ddfe9a 100644
--- a/driver/nopobject.go
+++ b/driver/nopobject.go
@@ -52,6 +52,16 @@ func (obj NopObjectHandle) Unlink() disko.DriverError {
 	return disko.ErrNotImplemented
 }
 
+// SameAs returns false.
+func (obj NopObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return false
+}
+
+// Close does nothing.
+func (obj NopObjectHandle) Close() error {
+	return disko.ErrNotImplemented
+}
+
 // Chmod does nothing.
 func (obj NopObjectHandle) Chmod(mode os.FileMode) disko.DriverError {
 	return disko.ErrNotImplemented
-- 
2.43.0

