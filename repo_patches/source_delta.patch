From 5007b5017a387edf1bbe5f996545175e892b847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/48] fix: let an uncompressed file's stripe footer be
 written

---
 orc/common/misc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..ea0eae2 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -145,7 +145,9 @@ func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) er
 func CompressingLeft(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
 	switch kind {
 	case pb.CompressionKind_NONE:
-		return errors.New("no compression")
+		if _, err := src.WriteTo(dst); err != nil {
+			return errors.WithStack(err)
+		}
 	case pb.CompressionKind_ZLIB:
 		if err := zlibCompressingLeft(chunkSize, dst, src); err != nil {
 			return err
-- 
2.43.0


From 5a825cad9e15df517559cb48dc9ddc2aa1f2c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 02/48] fix: compress every chunk independently of the previous
 one

---
 orc/common/misc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index ea0eae2..4f2e403 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -62,6 +62,8 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		// a closed compressor has to be reset, every chunk is decompressed independently
+		compressor.Reset(cBuf)
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From 0f7c72c0337c1da898fd53e5631eac1f40b45dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 03/48] fix: reset an uncompressed stream without a nil
 dereference

---
 orc/stream/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..ff8cee7 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil {
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From 1a2019b2729b51a1f6d147575a74cdb264f5ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:06 +0000
Subject: [PATCH 04/48] fix: deliver the last row of a file or stripe

---
 orc/reader.go | 4 ++--
 orc/stripe.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..e841677 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -172,7 +172,7 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
 
@@ -193,7 +193,7 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		br.stripeIndex--
 	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..f3ca773 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -325,7 +325,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-- 
2.43.0


From 4491d3de7d9f2a22ad08bc0c1bda1dd215263188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 05/48] fix: seek to the row asked for and read on from there

---
 orc/reader.go | 16 ++++++++++++++--
 orc/stripe.go | 12 ++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index e841677..e1faee4 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -203,11 +203,23 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			// stripes after may have been read
+			for _, s := range br.stripes[i+1:] {
+				if s.cursor != 0 {
+					if err := s.Seek(0); err != nil {
+						return err
+					}
+				}
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			return nil
 		}
 		rows += br.stripes[i].numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index f3ca773..fbe118a 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -367,14 +367,13 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
 	var stride uint64
+	offset := rowNumber
 
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
+	// without row index, start from beginning of stripe
+	if stripe.ropts.IndexStride > 0 {
+		stride = rowNumber / uint64(stripe.ropts.IndexStride)
+		offset = rowNumber % uint64(stripe.ropts.IndexStride)
 	}
 
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
@@ -384,6 +383,7 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 	if err := stripe.columnReader.Skip(offset); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
-- 
2.43.0


From c6f8ded3f83116f4d0c97fba67c0e4001e8f8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 06/48] fix: write dictionary encoded strings and start every
 stripe with an empty dictionary

---
 orc/column/string.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..2d001a4 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -590,9 +590,9 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		l := len(data)
 
 		vs := w.data[s]
-		w.count++
 		vs = append(vs, w.count)
 		w.data[s] = vs
+		w.count++
 
 		*w.stats.NumberOfValues++
 		*w.stats.StringStatistics.Sum += int64(l)
@@ -673,15 +673,15 @@ func (w *stringDictionaryV2Writer) Flush() error {
 		}
 	}
 	for _, v := range data {
-		if err := w.dataStream.Write(v); err != nil {
+		if err := w.dataStream.Write(uint64(v)); err != nil {
 			return err
 		}
 	}
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
@@ -739,7 +739,7 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
-- 
2.43.0


From 125072caa753180d9f969e9f8c0c0e18b5020c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 07/48] fix: close every stream of string, list and map columns

---
 orc/column/list.go   | 1 +
 orc/column/map.go    | 1 +
 orc/column/string.go | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..1e1464d 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -184,6 +184,7 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	r.child.Close()
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..8f697fa 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -209,6 +209,7 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
+	r.length.Close()
 	r.key.Close()
 	r.value.Close()
 }
diff --git a/orc/column/string.go b/orc/column/string.go
index 2d001a4..91884a6 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -361,7 +361,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
-- 
2.43.0


From ab69f780c5594b7e06552aeef31084e4b7499759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 08/48] fix: skip map elements once and report a failing binary
 skip

---
 orc/column/binary.go |  2 +-
 orc/column/map.go    | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..cf1c126 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -197,7 +197,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
diff --git a/orc/column/map.go b/orc/column/map.go
index 8f697fa..7f15fe1 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -114,13 +114,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From dd6e492c640b89a29399e4875e73c7ed7a1f883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 09/48] fix: hand out decoded decimals and timestamps

---
 orc/column/decimal.go | 4 +---
 orc/column/time.go    | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..d796af8 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -231,9 +231,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..634c767 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -502,9 +502,9 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			// values without location is UTC
+			t, _ := vec.Vector[i].V.(api.Timestamp)
+			vec.Vector[i].V = api.Timestamp{Loc: t.Loc, Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
 		}
 	}
 	return nil
-- 
2.43.0


From 505fd120f89be8fbdef28c4d82196ddabca13134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 10/48] fix: seek date columns to the start of a stripe and
 without a present stream

---
 orc/column/time.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index 634c767..069b5ec 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -221,6 +221,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride)
 	if err != nil {
 		return err
@@ -247,7 +256,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -255,7 +264,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
-- 
2.43.0


From f24436f34c68178bcca98b9e547dbcd5efdb7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 11/48] fix: write the lengths of binary values

---
 orc/column/binary.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index cf1c126..407b638 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -47,7 +47,14 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
+		data, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
+		}
+		if err := w.data.Write(data); err != nil {
+			return err
+		}
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
 		*w.stats.BinaryStatistics.Sum++
-- 
2.43.0


From d3fbd0d0301306d503fed0d2c04361884332f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 12/48] fix: refuse to write out string, binary, date and list
 columns before flush

---
 orc/column/binary.go | 3 +++
 orc/column/list.go   | 3 +++
 orc/column/string.go | 6 ++++++
 orc/column/time.go   | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 407b638..7194a99 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -111,6 +111,9 @@ func (w *binaryV2Writer) Flush() error {
 }
 
 func (w *binaryV2Writer) WriteOut(out io.Writer) (n int64, err error) {
+	if !w.flushed {
+		return 0, errors.New("not flushed")
+	}
 	var pn int64
 	if w.schema.HasNulls {
 		var err error
diff --git a/orc/column/list.go b/orc/column/list.go
index 1e1464d..c4db0b8 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -269,6 +269,9 @@ func (w *listV2Writer) Flush() error {
 }
 
 func (w *listV2Writer) WriteOut(out io.Writer) (n int64, err error) {
+	if !w.flushed {
+		return 0, errors.New("not flushed")
+	}
 	var pn int64
 	if w.schema.HasNulls {
 		var err error
diff --git a/orc/column/string.go b/orc/column/string.go
index 91884a6..f4b9da7 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -164,6 +164,9 @@ func (w *stringDirectV2Writer) Flush() error {
 }
 
 func (w *stringDirectV2Writer) WriteOut(out io.Writer) (int64, error) {
+	if !w.flushed {
+		return 0, errors.New("not flushed")
+	}
 	var pn int64
 	if w.schema.HasNulls {
 		var err error
@@ -714,6 +717,9 @@ func (w *stringDictionaryV2Writer) Flush() error {
 }
 
 func (w *stringDictionaryV2Writer) WriteOut(out io.Writer) (n int64, err error) {
+	if !w.flushed {
+		return 0, errors.New("not flushed")
+	}
 	var pn, dn, dcn, ln int64
 	if w.schema.HasNulls {
 		if pn, err = w.present.WriteOut(out); err != nil {
diff --git a/orc/column/time.go b/orc/column/time.go
index 069b5ec..655306a 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -110,6 +110,9 @@ func (w *dateV2Writer) Flush() error {
 }
 
 func (w *dateV2Writer) WriteOut(out io.Writer) (n int64, err error) {
+	if !w.flushed {
+		return 0, errors.New("not flushed")
+	}
 	var pn, dn int64
 	if w.schema.HasNulls {
 		if pn, err = w.present.WriteOut(out); err != nil {
-- 
2.43.0


From 70e31196286f186f543b2d0876adf202094f6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 13/48] fix: close the stream handle and report the error when
 a column stream cannot be opened

---
 orc/column/binary.go  |  7 ++++++-
 orc/column/bool.go    |  7 ++++++-
 orc/column/byte.go    |  9 +++++++--
 orc/column/decimal.go |  7 ++++++-
 orc/column/float.go   |  7 ++++++-
 orc/column/int.go     |  7 ++++++-
 orc/column/list.go    |  7 ++++++-
 orc/column/map.go     |  7 ++++++-
 orc/column/string.go  | 14 ++++++++++++--
 orc/column/struct.go  |  7 ++++++-
 orc/column/time.go    | 14 ++++++++++++--
 11 files changed, 79 insertions(+), 14 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 7194a99..8d3ad87 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -164,11 +164,16 @@ type BinaryV2Reader struct {
 	length  *stream.IntRLV2Reader
 }
 
-func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..a1cc983 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -147,11 +147,16 @@ type BoolReader struct {
 	data    *stream.BoolReader
 }
 
-func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..d35965e 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -143,11 +143,16 @@ func NewByteReader(schema *api.TypeDescription, opts *config.ReaderOptions, f or
 	return &ByteReader{reader: reader{opts: opts, schema: schema, f: f}}
 }
 
-func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
@@ -161,7 +166,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
-		err = errors.New("stream kind error")
+		return errors.New("stream kind error")
 	}
 	return nil
 }
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d796af8..06118fd 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -187,11 +187,16 @@ type DecimalV2Reader struct {
 	secondary *stream.IntRLV2Reader
 }
 
-func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..649a9a5 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -23,11 +23,16 @@ type FloatReader struct {
 	is64    bool
 }
 
-func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..930a4d4 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -184,11 +184,16 @@ type IntV2Reader struct {
 	bits    int
 }
 
-func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/list.go b/orc/column/list.go
index c4db0b8..1212d87 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -23,11 +23,16 @@ type ListV2Reader struct {
 	child Reader
 }
 
-func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/map.go b/orc/column/map.go
index 7f15fe1..4f02200 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -32,11 +32,16 @@ func (r *MapV2Reader) SetValue(value Reader) {
 	r.value = value
 }
 
-func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/string.go b/orc/column/string.go
index f4b9da7..0a94de5 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -217,11 +217,16 @@ type StringDirectV2Reader struct {
 	length  *stream.IntRLV2Reader
 }
 
-func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
@@ -386,11 +391,16 @@ type StringDictionaryV2Reader struct {
 	dictLoaded  bool
 }
 
-func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..93ea88f 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -28,11 +28,16 @@ func (r *StructReader) AddChild(child Reader) {
 	r.children = append(r.children, child)
 }
 
-func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
diff --git a/orc/column/time.go b/orc/column/time.go
index 655306a..001daff 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -155,11 +155,16 @@ type DateV2Reader struct {
 	data    stream.DateReader
 }
 
-func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	f, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
@@ -469,11 +474,16 @@ type TimestampV2Reader struct {
 	secondary *stream.IntRLV2Reader
 }
 
-func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
+func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error) {
 	ic, err := r.f.Clone()
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			ic.Close()
+		}
+	}()
 	if _, err = ic.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return err
 	}
-- 
2.43.0


From 7687e858e861d96f145b6a6ecdd713e615c7e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 14/48] fix: report an unreadable index stride or integer width

---
 orc/column/int.go    | 2 +-
 orc/column/reader.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/column/int.go b/orc/column/int.go
index 930a4d4..37ad5a3 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -238,7 +238,7 @@ func (r *IntV2Reader) NextBatch(vec *api.ColumnVector) error {
 			case BitsBigInt:
 				vec.Vector[i].V = v
 			default:
-				err = errors.New("reader bits error")
+				return errors.New("reader bits error")
 			}
 		}
 	}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..ee5a389 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -69,6 +69,7 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 	}
 	if stride > len(r.index.Entry) {
 		err = errors.Errorf("stride %d does not exist", stride)
+		return
 	}
 	pos = r.index.Entry[stride-1].Positions
 	return
-- 
2.43.0


From 5dbaaa990b431f1f563635fd250bb45cbc727755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 15/48] fix: report a failed close and close the file of a
 writer that cannot be created

---
 orc/writer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..6b5e53b 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -33,6 +33,7 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 	}
 	w, err := newWriter(schema, &opts, f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return w, nil
@@ -120,10 +121,7 @@ func (w *writer) Close() error {
 	if err := w.writeFileTail(); err != nil {
 		return err
 	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
-	}
-	return nil
+	return w.f.Close()
 }
 
 func (w *writer) writeHeader() (uint64, error) {
-- 
2.43.0


From 09d05af687b32a3c6bff0932c63f015b2a7a18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 16/48] fix: read a long file tail, reject an empty file and
 close the file of a reader that cannot be created

---
 orc/reader.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index e1faee4..cd163ef 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -26,7 +25,12 @@ func NewOSFileReader(path string) (Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newReader(f)
+	r, err := newReader(f)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return r, nil
 }
 
 type reader struct {
@@ -272,9 +276,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		// todo: empty tail
+		return nil, errors.New("file size 0")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
@@ -313,7 +316,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
-- 
2.43.0


From 069b33ef339d2b283d35081f2305701533504ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 17/48] fix: verify every child of a schema

---
 orc/api/type.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..96c7b56 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -163,7 +163,9 @@ func (td TypeDescription) verifySchema() error {
 			if td.HasNulls && c.HasNulls {
 				return errors.New("struct column has nulls cannot have nulls children")
 			}
-			return c.verifySchema()
+			if err := c.verifySchema(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 57c4e793e2b2af2aebf5a4dc8a2f1f2ea32a1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 18/48] fix: number and flatten schemas without package state

---
 orc/api/type.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 96c7b56..c236bd4 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -211,17 +211,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	nodeId := uint32(0)
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = nodeId
+		nodeId++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -251,25 +247,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From 23fccbf08e943a843709e603845453c753e85647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 19/48] fix: forget the nulls of the previous batch

---
 orc/stripe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index fbe118a..6b9ce15 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -363,6 +363,11 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	default:
 		vec.Vector = vec.Vector[:size]
 	}
+
+	// nulls of last batch should not be seen, maybe no present stream in this stripe
+	for i := range vec.Vector {
+		vec.Vector[i].Null = false
+	}
 }
 
 // locate rows in this stripe
-- 
2.43.0


From ad36d6e2b2dba7a6a1a2c224fd63a489eaa3f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 20/48] fix: keep the elements of every list or map of a batch

---
 orc/column/list.go | 13 ++++---------
 orc/column/map.go  | 22 ++++++++--------------
 2 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 1212d87..03f97a9 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -55,6 +55,8 @@ func (r *ListV2Reader) SetChild(child Reader) {
 func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
+	// children vector has elements of all rows
+	vec.Children[0].Vector = vec.Children[0].Vector[:0]
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil {
 			var p bool
@@ -73,21 +75,14 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 		}
 
 		// prepare vector for child
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-		} else {
+		if !vec.Vector[i].Null {
 			l := vec.Vector[i].V.(uint64)
 			for j := 0; j < int(l); j++ {
 				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
 			}
 		}
-
-		if err := r.child.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
 	}
-	return nil
+	return r.child.NextBatch(vec.Children[0])
 }
 
 func (r *ListV2Reader) Skip(rows uint64) error {
diff --git a/orc/column/map.go b/orc/column/map.go
index 4f02200..f78d52a 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -63,6 +63,9 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) (err error
 func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
+	// children vectors have keys and values of all rows
+	vec.Children[0].Vector = vec.Children[0].Vector[:0]
+	vec.Children[1].Vector = vec.Children[1].Vector[:0]
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil {
 			var p bool
@@ -81,26 +84,17 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 		}
 
 		// prepare key/value vector
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-			vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{Null: true})
-		} else {
+		if !vec.Vector[i].Null {
 			for j := 0; j < vec.Vector[i].V.(int); j++ {
 				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
 				vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{})
 			}
 		}
-
-		if err = r.key.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
-		if err = r.value.NextBatch(vec.Children[1]); err != nil {
-			return err
-		}
 	}
-	return nil
+	if err = r.key.NextBatch(vec.Children[0]); err != nil {
+		return err
+	}
+	return r.value.NextBatch(vec.Children[1])
 }
 
 func (r *MapV2Reader) Skip(rows uint64) error {
-- 
2.43.0


From 57b9c5b4011aa393a7c1a99fc0c310329acf006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 21/48] fix: count null rows in the index strides of decimal
 and timestamp columns and keep their index statistics apart

---
 orc/column/decimal.go | 57 ++++++++++++++++++++++-----------------
 orc/column/time.go    | 63 ++++++++++++++++++++++---------------------
 2 files changed, 65 insertions(+), 55 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 06118fd..dc7c968 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -48,15 +48,17 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		}
 	}
 
+	var s string
+	var d api.Decimal64
 	if !value.Null {
-		d := value.V.(api.Decimal64)
+		d = value.V.(api.Decimal64)
 		if err := w.data.Write(d.Precision); err != nil {
 			return err
 		}
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
+		s = d.String()
 		if s < w.stats.DecimalStatistics.GetMinimum() {
 			*w.stats.DecimalStatistics.Minimum = s
 		}
@@ -73,40 +75,45 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		sum += d.Float64()
 		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
 		*w.stats.NumberOfValues++
+	}
 
-		if w.opts.WriteIndex {
-			w.indexInRows++
+	if w.opts.WriteIndex {
+		w.indexInRows++
 
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
+		if w.indexInRows >= w.opts.IndexStride {
+			var pp []uint64
+			if w.schema.HasNulls {
+				pp = append(pp, w.present.GetPosition()...)
+			}
+			pp = append(pp, w.data.GetPosition()...)
+			pp = append(pp, w.secondary.GetPosition()...)
+			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
+
+			w.indexStats = &pb.ColumnStatistics{
+				DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
+				NumberOfValues:    new(uint64), HasNull: new(bool)}
+			if w.schema.HasNulls {
+				*w.indexStats.HasNull = true
 			}
+			w.indexInRows = 0
+		}
 
+		if !value.Null {
 			if s < w.indexStats.DecimalStatistics.GetMinimum() {
 				*w.indexStats.DecimalStatistics.Minimum = s
 			}
 			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
+				*w.indexStats.DecimalStatistics.Maximum = s
 			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
+			var indexSum float64
+			var err error
+			if w.indexStats.DecimalStatistics.GetSum() != "" {
+				if indexSum, err = strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64); err != nil {
+					return errors.WithStack(err)
+				}
 			}
 			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
+			*w.indexStats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
 			*w.indexStats.NumberOfValues++
 		}
 	}
diff --git a/orc/column/time.go b/orc/column/time.go
index 001daff..d90ab9e 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -79,11 +79,11 @@ func (w *dateV2Writer) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
+			if days < w.indexStats.DateStatistics.GetMinimum() {
+				*w.indexStats.DateStatistics.Minimum = days
 			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
+			if days > w.indexStats.DateStatistics.GetMaximum() {
+				*w.indexStats.DateStatistics.Maximum = days
 			}
 			*w.indexStats.NumberOfValues++
 		}
@@ -305,7 +305,7 @@ func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOption
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
+			TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
@@ -327,6 +327,7 @@ func (w *timestampWriter) Write(value api.Value) error {
 		}
 	}
 
+	var ms, msUtc int64
 	if !value.Null {
 		t := value.V.(api.Timestamp)
 		if err := w.data.Write(t.Seconds); err != nil {
@@ -337,42 +338,44 @@ func (w *timestampWriter) Write(value api.Value) error {
 		}
 
 		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
+		ms = t.GetMilliSeconds()
 		if ms < w.stats.TimestampStatistics.GetMinimum() {
 			*w.stats.TimestampStatistics.Minimum = ms
 		}
 		if ms > w.stats.TimestampStatistics.GetMaximum() {
 			*w.stats.TimestampStatistics.Maximum = ms
 		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
+		msUtc = t.GetMilliSecondsUtc()
+		if msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
+			*w.stats.TimestampStatistics.MinimumUtc = msUtc
 		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
+		if msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
 			*w.stats.TimestampStatistics.MaximumUtc = msUtc
 		}
+	}
+
+	if w.opts.WriteIndex {
+		w.indexInRows++
+
+		if w.indexInRows >= w.opts.IndexStride {
+			var pp []uint64
+			if w.schema.HasNulls {
+				pp = append(pp, w.present.GetPosition()...)
+			}
+			pp = append(pp, w.data.GetPosition()...)
+			pp = append(pp, w.secondary.GetPosition()...)
+			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
 
-		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
+			w.indexStats = &pb.ColumnStatistics{
+				TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
+				NumberOfValues:      new(uint64), HasNull: new(bool)}
+			if w.schema.HasNulls {
+				*w.indexStats.HasNull = true
 			}
+			w.indexInRows = 0
+		}
 
+		if !value.Null {
 			if w.indexStats.TimestampStatistics == nil {
 				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
 			}
@@ -387,7 +390,7 @@ func (w *timestampWriter) Write(value api.Value) error {
 				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
 			}
 			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
+				*w.indexStats.TimestampStatistics.MinimumUtc = msUtc
 			}
 
 			*w.indexStats.NumberOfValues++
-- 
2.43.0


From e847cfad13ef250f893bb8f3b0da288647da70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 22/48] fix: keep index statistics usable in the stripes after
 the first

---
 orc/column/writer.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..3c2ed77 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -34,15 +34,43 @@ func (w *writer) reset() {
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
 		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.indexStats = newIndexStats(w.stats)
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// newIndexStats returns empty statistics of the same kind as stats
+func newIndexStats(stats *pb.ColumnStatistics) *pb.ColumnStatistics {
+	is := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	*is.HasNull = stats.GetHasNull()
+	if stats.IntStatistics != nil {
+		is.IntStatistics = &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}
+	}
+	if stats.DoubleStatistics != nil {
+		is.DoubleStatistics = &pb.DoubleStatistics{Minimum: new(float64), Maximum: new(float64), Sum: new(float64)}
+	}
+	if stats.StringStatistics != nil {
+		is.StringStatistics = &pb.StringStatistics{Minimum: new(string), Maximum: new(string), Sum: new(int64)}
+	}
+	if stats.BucketStatistics != nil {
+		is.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
+	}
+	if stats.DecimalStatistics != nil {
+		is.DecimalStatistics = &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}
+	}
+	if stats.DateStatistics != nil {
+		is.DateStatistics = &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}
+	}
+	if stats.BinaryStatistics != nil {
+		is.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
+	}
+	if stats.TimestampStatistics != nil {
+		is.TimestampStatistics = &pb.TimestampStatistics{Minimum: new(int64), Maximum: new(int64), MinimumUtc: new(int64), MaximumUtc: new(int64)}
+	}
+	return is
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
-- 
2.43.0


From f06c8123219b4a0d22ec5bc9bfb17e440d086369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 23/48] fix: count values, bytes and trues of a column once

---
 orc/column/binary.go  | 6 +++---
 orc/column/bool.go    | 6 ++++--
 orc/column/byte.go    | 2 +-
 orc/column/decimal.go | 2 +-
 orc/column/float.go   | 9 +++++++--
 orc/column/int.go     | 2 +-
 orc/column/list.go    | 2 +-
 orc/column/string.go  | 4 ++--
 orc/column/struct.go  | 6 +++---
 orc/column/time.go    | 4 ++--
 10 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 8d3ad87..95e5eb6 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -57,7 +57,7 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
+		*w.stats.BinaryStatistics.Sum += int64(len(data))
 		*w.stats.NumberOfValues++
 	}
 
@@ -80,7 +80,7 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
+			*w.indexStats.BinaryStatistics.Sum += int64(len(value.V.([]byte)))
 			*w.indexStats.NumberOfValues++
 		}
 	}
@@ -103,7 +103,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
diff --git a/orc/column/bool.go b/orc/column/bool.go
index a1cc983..5647032 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -74,7 +74,9 @@ func (w *boolWriter) Write(value api.Value) error {
 		}
 		// no bytes on disk index stats
 		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+			if value.V.(bool) {
+				(*w.indexStats.BucketStatistics).Count[0]++
+			}
 			*w.indexStats.NumberOfValues++
 		}
 	}
@@ -92,7 +94,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index d35965e..476a8a0 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -94,7 +94,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index dc7c968..f8f228a 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -126,7 +126,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 649a9a5..8d8c844 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -239,7 +239,12 @@ func (w *floatWriter) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			v := value.V.(float64)
+			var v float64
+			if w.is64 {
+				v = value.V.(float64)
+			} else {
+				v = float64(value.V.(float32))
+			}
 			*w.indexStats.DoubleStatistics.Sum += v
 			if v < *w.indexStats.DoubleStatistics.Minimum {
 				*w.indexStats.DoubleStatistics.Minimum = v
@@ -266,7 +271,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index 37ad5a3..0975f73 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -126,7 +126,7 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index 03f97a9..3c67a6f 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -262,7 +262,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/string.go b/orc/column/string.go
index 0a94de5..5f7d049 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -154,7 +154,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -716,7 +716,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 93ea88f..c3f0b98 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -195,8 +195,8 @@ func (w *structWriter) Write(value api.Value) error {
 	}
 	if !value.Null {
 		(*w.stats.BucketStatistics).Count[0]++
+		*w.stats.NumberOfValues++
 	}
-	*w.stats.NumberOfValues++
 
 	if w.opts.WriteIndex {
 		w.indexInRows++
@@ -217,8 +217,8 @@ func (w *structWriter) Write(value api.Value) error {
 		// no bytes on disk index stats
 		if !value.Null {
 			(*w.indexStats.BucketStatistics).Count[0]++
+			*w.indexStats.NumberOfValues++
 		}
-		*w.indexStats.NumberOfValues++
 	}
 	return nil
 }
@@ -228,7 +228,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index d90ab9e..232dc6d 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -102,7 +102,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -405,7 +405,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
-- 
2.43.0


From 655e00468aecf7ca5e4a0adfb2fa9c31d25cff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 24/48] fix: let the first value decide minimum and maximum

---
 orc/column/float.go | 10 +++++-----
 orc/column/int.go   |  8 ++++----
 orc/column/time.go  | 26 +++++++++++++-------------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/orc/column/float.go b/orc/column/float.go
index 8d8c844..f51a2ef 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -211,13 +211,13 @@ func (w *floatWriter) Write(value api.Value) error {
 		}
 
 		*w.stats.DoubleStatistics.Sum += v
-		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
+		if *w.stats.NumberOfValues == 0 || v < *w.stats.DoubleStatistics.Minimum {
 			*w.stats.DoubleStatistics.Minimum = v
 		}
-		if v > *w.stats.DoubleStatistics.Maximum {
+		if *w.stats.NumberOfValues == 0 || v > *w.stats.DoubleStatistics.Maximum {
 			*w.stats.DoubleStatistics.Maximum = v
 		}
+		*w.stats.NumberOfValues++
 	}
 
 	if w.opts.WriteIndex {
@@ -246,10 +246,10 @@ func (w *floatWriter) Write(value api.Value) error {
 				v = float64(value.V.(float32))
 			}
 			*w.indexStats.DoubleStatistics.Sum += v
-			if v < *w.indexStats.DoubleStatistics.Minimum {
+			if *w.indexStats.NumberOfValues == 0 || v < *w.indexStats.DoubleStatistics.Minimum {
 				*w.indexStats.DoubleStatistics.Minimum = v
 			}
-			if v > *w.indexStats.DoubleStatistics.Maximum {
+			if *w.indexStats.NumberOfValues == 0 || v > *w.indexStats.DoubleStatistics.Maximum {
 				*w.indexStats.DoubleStatistics.Maximum = v
 			}
 
diff --git a/orc/column/int.go b/orc/column/int.go
index 0975f73..518ca6a 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -73,10 +73,10 @@ func (w *intWriter) Write(value api.Value) error {
 			return err
 		}
 		*w.stats.IntStatistics.Sum += v
-		if v < *w.stats.IntStatistics.Minimum {
+		if *w.stats.NumberOfValues == 0 || v < *w.stats.IntStatistics.Minimum {
 			*w.stats.IntStatistics.Minimum = v
 		}
-		if v > *w.stats.IntStatistics.Maximum {
+		if *w.stats.NumberOfValues == 0 || v > *w.stats.IntStatistics.Maximum {
 			*w.stats.IntStatistics.Maximum = v
 		}
 		*w.stats.NumberOfValues++
@@ -102,10 +102,10 @@ func (w *intWriter) Write(value api.Value) error {
 		}
 		if !value.Null {
 			*w.indexStats.IntStatistics.Sum += v
-			if v < *w.indexStats.IntStatistics.Minimum {
+			if *w.indexStats.NumberOfValues == 0 || v < *w.indexStats.IntStatistics.Minimum {
 				*w.indexStats.IntStatistics.Minimum = v
 			}
-			if v > *w.indexStats.IntStatistics.Maximum {
+			if *w.indexStats.NumberOfValues == 0 || v > *w.indexStats.IntStatistics.Maximum {
 				*w.indexStats.IntStatistics.Maximum = v
 			}
 			*w.indexStats.NumberOfValues++
diff --git a/orc/column/time.go b/orc/column/time.go
index 232dc6d..64e5e9d 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -51,10 +51,10 @@ func (w *dateV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
+		if *w.stats.NumberOfValues == 0 || days < w.stats.DateStatistics.GetMinimum() {
 			*w.stats.DateStatistics.Minimum = days
 		}
-		if days > w.stats.DateStatistics.GetMaximum() {
+		if *w.stats.NumberOfValues == 0 || days > w.stats.DateStatistics.GetMaximum() {
 			*w.stats.DateStatistics.Maximum = days
 		}
 		*w.stats.NumberOfValues++
@@ -79,10 +79,10 @@ func (w *dateV2Writer) Write(value api.Value) error {
 			w.indexInRows = 0
 		}
 		if !value.Null {
-			if days < w.indexStats.DateStatistics.GetMinimum() {
+			if *w.indexStats.NumberOfValues == 0 || days < w.indexStats.DateStatistics.GetMinimum() {
 				*w.indexStats.DateStatistics.Minimum = days
 			}
-			if days > w.indexStats.DateStatistics.GetMaximum() {
+			if *w.indexStats.NumberOfValues == 0 || days > w.indexStats.DateStatistics.GetMaximum() {
 				*w.indexStats.DateStatistics.Maximum = days
 			}
 			*w.indexStats.NumberOfValues++
@@ -337,21 +337,21 @@ func (w *timestampWriter) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
 		ms = t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
+		if *w.stats.NumberOfValues == 0 || ms < w.stats.TimestampStatistics.GetMinimum() {
 			*w.stats.TimestampStatistics.Minimum = ms
 		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
+		if *w.stats.NumberOfValues == 0 || ms > w.stats.TimestampStatistics.GetMaximum() {
 			*w.stats.TimestampStatistics.Maximum = ms
 		}
 		msUtc = t.GetMilliSecondsUtc()
-		if msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
+		if *w.stats.NumberOfValues == 0 || msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
 			*w.stats.TimestampStatistics.MinimumUtc = msUtc
 		}
-		if msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
+		if *w.stats.NumberOfValues == 0 || msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
 			*w.stats.TimestampStatistics.MaximumUtc = msUtc
 		}
+		*w.stats.NumberOfValues++
 	}
 
 	if w.opts.WriteIndex {
@@ -380,16 +380,16 @@ func (w *timestampWriter) Write(value api.Value) error {
 				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
 			}
 
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
+			if *w.indexStats.NumberOfValues == 0 || ms > w.indexStats.TimestampStatistics.GetMaximum() {
 				*w.indexStats.TimestampStatistics.Maximum = ms
 			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
+			if *w.indexStats.NumberOfValues == 0 || ms < w.indexStats.TimestampStatistics.GetMinimum() {
 				*w.indexStats.TimestampStatistics.Minimum = ms
 			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
+			if *w.indexStats.NumberOfValues == 0 || msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
 				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
 			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
+			if *w.indexStats.NumberOfValues == 0 || msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
 				*w.indexStats.TimestampStatistics.MinimumUtc = msUtc
 			}
 
-- 
2.43.0


From 8a422b25ede7f9b11488f1bc3614addd1baf3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 25/48] fix: close columns whose streams are absent

---
 orc/column/list.go   | 4 +++-
 orc/column/map.go    | 8 ++++++--
 orc/column/time.go   | 4 +++-
 orc/stream/bool.go   | 3 +++
 orc/stream/byte.go   | 3 +++
 orc/stream/float.go  | 2 +-
 orc/stream/int.go    | 6 ++++++
 orc/stream/string.go | 3 +++
 8 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 3c67a6f..8c9c363 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -184,7 +184,9 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
-	r.child.Close()
+	if r.child != nil {
+		r.child.Close()
+	}
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index f78d52a..629d4bc 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -207,6 +207,10 @@ func (r *MapV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
-	r.key.Close()
-	r.value.Close()
+	if r.key != nil {
+		r.key.Close()
+	}
+	if r.value != nil {
+		r.value.Close()
+	}
 }
diff --git a/orc/column/time.go b/orc/column/time.go
index 64e5e9d..8544265 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -290,7 +290,9 @@ func (r *DateV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
-	r.data.Close()
+	if r.data != nil {
+		r.data.Close()
+	}
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/stream/bool.go b/orc/stream/bool.go
index aab1535..795c181 100644
--- a/orc/stream/bool.go
+++ b/orc/stream/bool.go
@@ -51,5 +51,8 @@ func (r *BoolReader) Finished() bool {
 }
 
 func (r *BoolReader) Close() {
+	if r == nil {
+		return
+	}
 	r.reader.Close()
 }
diff --git a/orc/stream/byte.go b/orc/stream/byte.go
index b164bab..47ce1c5 100644
--- a/orc/stream/byte.go
+++ b/orc/stream/byte.go
@@ -53,5 +53,8 @@ func (r *ByteReader) Finished() bool {
 }
 
 func (r *ByteReader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/float.go b/orc/stream/float.go
index 9b539b5..6b1d55d 100644
--- a/orc/stream/float.go
+++ b/orc/stream/float.go
@@ -52,7 +52,7 @@ func (r *FloatReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *FloatReader) Close() {
-	if r.stream!=nil {
+	if r != nil && r.stream != nil {
 		r.stream.Close()
 	}
 }
diff --git a/orc/stream/int.go b/orc/stream/int.go
index bda74c3..b659d9a 100644
--- a/orc/stream/int.go
+++ b/orc/stream/int.go
@@ -111,6 +111,9 @@ func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
 }
 
 func (r *IntRLV2Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
 
@@ -140,5 +143,8 @@ func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
 }
 
 func (r *Varint64Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/string.go b/orc/stream/string.go
index 8bbbc34..2b110c6 100644
--- a/orc/stream/string.go
+++ b/orc/stream/string.go
@@ -55,5 +55,8 @@ func (r *StringContentsReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *StringContentsReader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
-- 
2.43.0


From 6644b06a96d0897a7078bd06b2259be664a233bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 26/48] fix: close the streams of a batch reader that cannot be
 created

---
 orc/reader.go |  1 +
 orc/stripe.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index cd163ef..2516705 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -88,6 +88,7 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
+		br.Close()
 		return nil, err
 	}
 	return br, nil
diff --git a/orc/stripe.go b/orc/stripe.go
index 6b9ce15..a4bd1bc 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -243,9 +243,18 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 }
 
 // stripe {index{},column{[present],data,[length]},footer}
-func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
+func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) (err error) {
 	// make sure len(columns)==len(all schemas)
 	readers := make([]column.Reader, len(stripe.schemas))
+	defer func() {
+		if err != nil {
+			for _, r := range readers {
+				if r != nil {
+					r.Close()
+				}
+			}
+		}
+	}()
 	for _, schema := range stripe.schemas {
 		if stripe.bopt.IsInclude(schema.Id) {
 			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
-- 
2.43.0


From 3fd78480928112a3e7119baa5cbb665e2660ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 27/48] fix: start every stripe of a bool or byte stream from a
 clean encoder

---
 orc/encoding/bool.go | 4 ++++
 orc/encoding/byte.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,10 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From 110b20285bd1cd741d94062126a2b47677f48010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 28/48] fix: write a full run of integers no encoding shortens

---
 orc/encoding/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..ac1da73 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -486,7 +486,8 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			// a full run must be written, otherwise its length would not fit the header
+			if len(e.values) != 0 && (toEnd || len(e.values) >= MaxIntRunLength) {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From 67a1f598340000ad0316b1565f929c15e1069c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 29/48] fix: give zero and 12 bit values a width their encoding
 has

---
 orc/encoding/int.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ac1da73..22ded4d 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -504,7 +504,7 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 	header := make([]byte, 2)
 	header[0] = Encoding_DIRECT << 6
 
-	var width int
+	width := 1 // the width table has no 0 for direct values
 	for _, v := range e.values {
 		var w int
 		if widthAlign {
@@ -889,9 +889,12 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 			width = byte(bits)
 		}
 	}
-	if width == 1 { // delta width no 1?
+	if width < 2 && len(deltas) != 0 { // delta width no 1, and 0 is a fixed delta
 		width = 2
 	}
+	if width > 8 && width < 16 {
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From c53bc2b5faeb3fe85c22d063745034115f6e1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 30/48] fix: write every byte of a short repeated integer

---
 orc/encoding/int.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 22ded4d..ace2291 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1110,26 +1110,18 @@ func findRepeatsInBytes(values []byte, minRepeat int) (repeats []repeat) {
 func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	header := byte(count & 0x07)         // count
 	header |= Encoding_SHORT_REPEAT << 6 // encoding
-	var w byte
-	bb := bytes.NewBuffer(make([]byte, 8))
-	bb.Reset()
-	for j := 7; j >= 0; j-- { //
-		b := byte(x >> uint(8*j))
-		if b != 0x00 {
-			if byte(j) > w { // [1, 8]
-				w = byte(j)
-			}
-			if err := bb.WriteByte(b); err != nil {
-				return errors.WithStack(err)
-			}
-		}
+	w := byte(getBitsWidth(x)+7) / 8 // bytes of x, [1, 8]
+	if w == 0 {
+		w = 1
 	}
-	header |= w << 3 // W
+	header |= (w - 1) << 3 // W
 	if err := out.WriteByte(header); err != nil {
 		return errors.WithStack(err)
 	}
-	if _, err := bb.WriteTo(out); err != nil {
-		return errors.WithStack(err)
+	for j := int(w) - 1; j >= 0; j-- { // big endian
+		if err := out.WriteByte(byte(x >> uint(8*j))); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 8aec3ad07a51ab8b8c19ee617e4c57f0ae1499ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 31/48] fix: leave room for a 10 byte varint in delta encoded
 integers

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ace2291..c6f19c1 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -442,7 +442,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -460,7 +460,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -914,7 +914,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 5334bd39e6d7bc077e6751996ee3f2dbd6c791c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 32/48] fix: accumulate a fixed delta

---
 orc/encoding/int.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index c6f19c1..453b47a 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -166,13 +166,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
-- 
2.43.0


From f739a2c704ef40799f01b3d4a4b2b20d0b7caa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 33/48] fix: read and write unaligned integers wider than 56
 bits

---
 orc/encoding/int.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 453b47a..ba916de 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -226,7 +226,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -292,6 +292,18 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 }
 
 func (d *intRLV2Decoder) readBits(in io.ByteReader, bits int) (value uint64, err error) {
+	if bits > 32 { // together with the bits left they might not fit 64 bits
+		high, err := d.readBits(in, bits-32)
+		if err != nil {
+			return 0, err
+		}
+		low, err := d.readBits(in, 32)
+		if err != nil {
+			return 0, err
+		}
+		return high<<32 | low, nil
+	}
+
 	hasBits := d.bitsLeft
 	data := uint64(d.lastByte)
 	for ; hasBits < bits; hasBits += 8 {
@@ -342,11 +354,15 @@ func (d *intRLV2Encoder) forgetBits() {
 }
 
 func (e *intRLV2Encoder) writeBits(value uint64, bits int, out *bytes.Buffer) (err error) {
-	totalBits := e.bitsLeft + bits
-	if totalBits > 64 {
-		return errors.New("write bits > 64")
+	if bits > 32 { // together with the bits left they might not fit 64 bits
+		if err = e.writeBits(value>>32, bits-32, out); err != nil {
+			return err
+		}
+		return e.writeBits(value&0xffffffff, 32, out)
 	}
 
+	totalBits := e.bitsLeft + bits
+
 	if e.lastByte != 0 {
 		value = (uint64(e.lastByte) << bits) | value // last byte and value should not overlap
 	}
-- 
2.43.0


From 978c899c31269c5a09211470a3b7b4f77fc5bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 34/48] fix: patch only integers whose patches and widths the
 header can hold

---
 orc/encoding/int.go | 66 +++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ba916de..288bd28 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -671,6 +671,44 @@ type patchedValues struct {
 	patches []uint64 // patch values, already shifted valuebits
 }
 
+// bits width of the widest patch, align to width encoding table
+func (pvs *patchedValues) patchWidth() int {
+	var width int
+	for _, p := range pvs.patches {
+		if w := getBitsWidth(p); w > width {
+			width = w
+		}
+	}
+	return patchTableWidth(width)
+}
+
+// bits width of the widest gap, at least 1
+func (pvs *patchedValues) gapWidth() int {
+	width := 1
+	for _, g := range pvs.gaps {
+		if w := getBitsWidth(uint64(g)); w > width {
+			width = w
+		}
+	}
+	return width
+}
+
+// the narrowest width of the width encoding table which holds w bits
+func patchTableWidth(w int) int {
+	switch {
+	case w < 1:
+		return 1
+	case w <= 21:
+		return w
+	case w <= 24:
+		return 24
+	case w <= 30:
+		return (w + 1) / 2 * 2
+	default:
+		return (w + 7) / 8 * 8
+	}
+}
+
 // analyze bit widths, if return encoding Patch then fill the patchValues, else return encoding Direct
 // todo: patch 0
 // todo: try how many values to determine patch
@@ -721,7 +759,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			width = width_
 		}
 	}
-	deltaValuesWidthHist := make([]byte, BITS_SLOTS) // values bits width 0 to 64
+	deltaValuesWidthHist := make([]int, BITS_SLOTS) // values bits width 0 to 64
 	for i := 0; i < count; i++ {
 		deltaValuesWidthHist[deltaValuesWidths[i]] += 1
 	}
@@ -729,9 +767,9 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	p90len := int(float64(count) * 0.9)
 	l := 0
 	for i := 0; i < BITS_SLOTS; i++ {
-		l += int(deltaValuesWidthHist[i])
+		l += deltaValuesWidthHist[i]
 		if l >= p90len && deltaValuesWidthHist[i] != 0 {
-			w = byte(i)
+			w = byte(patchTableWidth(i))
 			break
 		}
 	}
@@ -762,9 +800,9 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 				previousGap = i
 			}
 		}
-		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+		// what does not fit the header is written direct
+		if len(pvs.patches) > 31 || base == math.MinInt64 || pvs.gapWidth()+pvs.patchWidth() > 64 {
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -810,13 +848,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	header[2] = (bw - 1) << 5                                // 3bits for 1 to 8 bytes
 
 	// 5 bits for PW (patch width) (1 to 64 bits)
-	var patchWidth int
-	for _, p := range pvs.patches {
-		patchWidth_ := getBitsWidth(p)
-		if patchWidth_ > patchWidth {
-			patchWidth = patchWidth_
-		}
-	}
+	patchWidth := pvs.patchWidth()
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
@@ -825,13 +857,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
-	for _, g := range pvs.gaps {
-		pgw_ := getBitsWidth(uint64(g))
-		if pgw_ > pgw {
-			pgw = pgw_
-		}
-	}
+	pgw := pvs.gapWidth()
 	header[3] = byte(pgw-1) & 0b111 << 5
 
 	// 5 bits for PLL (patch list length) (0 to 31)
-- 
2.43.0


From c5a804efa4dda5172555eec4a2f05a586372722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 35/48] fix: start every stripe of an integer stream at
 position 0

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 288bd28..5eecb12 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -435,6 +435,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From 425b33e3e7842ff7760734af24f0a93fb48a10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 36/48] fix: seek a stream beyond its first chunk and to its
 end

---
 orc/stream/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..138f6c8 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -95,10 +95,21 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
+	if r.opts.CompressionKind == pb.CompressionKind_NONE {
+		// chunks are not marked in the stream, the offset is not limited to the first one
+		chunk += chunkOffset
+		chunkOffset = 0
+	}
+	if chunk > r.info.GetLength() {
+		return errors.Errorf("seek to %d, out of stream %s", chunk, r.info.String())
+	}
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
 	r.readLength = chunk
+	if chunk == r.info.GetLength() { // no values left
+		return nil
+	}
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
-- 
2.43.0


From 74257f81744c98f3ba461e85ef54916d9eaa4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 37/48] fix: write no empty stripe when the last row filled one

---
 orc/writer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 6b5e53b..6620951 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -113,10 +113,13 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	// nothing may be left when the last row filled its stripe
+	if w.stripe.info.GetNumberOfRows() != 0 {
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	if err := w.writeFileTail(); err != nil {
 		return err
-- 
2.43.0


From 116e6a3b0841c4657c84c4ec8f60a4ad0054ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 38/48] fix: close the file of a writer that cannot be finished

---
 orc/writer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 6620951..7117ad8 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -112,7 +112,13 @@ func (w *writer) GetSchema() *api.TypeDescription {
 	return w.schemas[0]
 }
 
-func (w *writer) Close() error {
+func (w *writer) Close() (err error) {
+	defer func() {
+		if cerr := w.f.Close(); err == nil {
+			err = cerr
+		}
+	}()
+
 	// nothing may be left when the last row filled its stripe
 	if w.stripe.info.GetNumberOfRows() != 0 {
 		if err := w.stripe.flushOut(); err != nil {
@@ -121,10 +127,7 @@ func (w *writer) Close() error {
 		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
 
-	if err := w.writeFileTail(); err != nil {
-		return err
-	}
-	return w.f.Close()
+	return w.writeFileTail()
 }
 
 func (w *writer) writeHeader() (uint64, error) {
-- 
2.43.0


From 2f4bd3aad2ae2b4e8ce478519bb4a7ab9f0ccc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 39/48] fix: read the char and varchar columns a writer accepts

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..2e214e8 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -95,6 +95,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From e2896611d3c028d87940710e7d6cb5830d668a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 40/48] fix: refuse to write floating point columns in an
 encoding no reader accepts

---
 orc/column/package.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 2e214e8..3ca354f 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -221,8 +221,14 @@ func NewWriter(schema *api.TypeDescription, opts *config.WriterOptions) (Writer,
 		return nil, errors.New("encoding not impl")
 
 	case pb.Type_FLOAT:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, false), nil
 	case pb.Type_DOUBLE:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, true), nil
 
 	case pb.Type_CHAR:
-- 
2.43.0


From e5b6d6f40e0757b271e1946f8a2ba00ce8f8ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 41/48] fix: convert dates more than 292 years from 1970

---
 orc/api/vector.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..19143ee 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -117,16 +117,20 @@ func (d *Date) String() string {
 }
 
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
-	return t
+	// a duration holds 292 years only
+	return Date(time.Date(1970, 1, 1+int(days), 0, 0, 0, 0, time.UTC))
 }
 
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
 	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	const daySeconds = 24 * 60 * 60
+	s := time.Time(d).Unix()
+	days := s / daySeconds
+	if s%daySeconds < 0 { // before 1970
+		days--
+	}
+	return int32(days)
 }
 
 type Timestamp struct {
-- 
2.43.0


From 067535e5bc0208764a48e0f01d940e891d3d0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 42/48] fix: a truncated chunk header was taken for a whole one

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 4f2e403..4fb1566 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -236,7 +236,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From 9805a23361d6530ffabf7f88764a082c453e5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 43/48] fix: a failure reading a varuint was dropped

---
 orc/encoding/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..1d8bb41 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -275,7 +275,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return 0, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From 1118e57046e2f8999e2faa1ad934796cad0a371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 44/48] fix: timestamp statistics are milliseconds since the
 epoch

---
 orc/api/vector.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 19143ee..9a02444 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -155,14 +155,13 @@ func (t Timestamp) GetMilliSeconds() int64 {
 	}
 	var ms int64
 	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
+	ms = (baseSec + t.Seconds) * 1_000
+	ms += int64(t.Nanos / 1_000_000)
 	return ms
 }
 
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	return t.Time().Unix()*1_000 + int64(t.Nanos/1_000_000)
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-- 
2.43.0


From af2987af5f3d110f604de2af9e92ae6d4ddd8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:33 +0000
Subject: [PATCH 45/48] fix: count rows of structs without nulls in their
 statistics

---
 orc/column/struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index c3f0b98..f9181ee 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -187,6 +187,8 @@ type structWriter struct {
 
 func (w *structWriter) Write(value api.Value) error {
 	if !w.schema.HasNulls {
+		(*w.stats.BucketStatistics).Count[0]++
+		*w.stats.NumberOfValues++
 		return nil
 	}
 
-- 
2.43.0


From eca5af5ab55664a0e4f5e38ee5f745321ae893ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 46/48] fix: refuse chunk sizes which the chunk header cannot
 hold

---
 orc/common/misc.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 4fb1566..033697b 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -45,7 +45,21 @@ func CompressingChunks(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer
 	return nil
 }
 
+// a chunk's length has 23 bits in its header
+const maxChunkLength = 1<<23 - 1
+
+func checkChunkSize(chunkSize int) error {
+	if chunkSize < 1 || chunkSize > maxChunkLength {
+		return errors.Errorf("chunk size %d not between 1 and %d", chunkSize, maxChunkLength)
+	}
+	return nil
+}
+
 func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
+	if err := checkChunkSize(chunkSize); err != nil {
+		return err
+	}
+
 	buf := make([]byte, chunkSize)
 
 	cBuf := bytes.NewBuffer(make([]byte, chunkSize))
@@ -96,6 +110,10 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 }
 
 func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
+	if err := checkChunkSize(chunkSize); err != nil {
+		return err
+	}
+
 	if src.Len() > chunkSize {
 		return errors.New("src left len error")
 	}
-- 
2.43.0


From 25e8ac6a6b7753dc6b68c5bf2b01482cdeff6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:44 +0000
Subject: [PATCH 47/48] fix: reading a stream of a file without chunk size did
 not end

---
 orc/stream/reader.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 138f6c8..e6061db 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -121,9 +121,10 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 func (r *reader) readAChunk() error {
 	// no compression
 	if r.opts.CompressionKind == pb.CompressionKind_NONE { // no header
-		l := r.opts.ChunkSize
-		if r.info.GetLength()-r.readLength < l {
-			l = r.info.GetLength() - r.readLength
+		// a file which is not compressed may record no chunk size
+		l := r.info.GetLength() - r.readLength
+		if r.opts.ChunkSize > 0 && r.opts.ChunkSize < l {
+			l = r.opts.ChunkSize
 		}
 
 		logger.Tracef("read a chunk, no compression copy %d from stream", l)
-- 
2.43.0


From 9a4008738b0500d405a6cae104f2a0cde5ed9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:12 +0000
Subject: [PATCH 48/48] fix: a dictionary column did not count what it holds,
 stripes grew without bound

---
 orc/column/string.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 5f7d049..402414f 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -576,6 +576,9 @@ func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.Write
 	return &stringDictionaryV2Writer{writer: base, dataStream: data, dictStream: dict, lengthStream: length, data: map[string][]int{}}
 }
 
+// bytes one position of a dictionary string takes
+const positionSize = 8
+
 type stringDictionaryV2Writer struct {
 	*writer
 	dataStream   stream.Writer
@@ -584,6 +587,7 @@ type stringDictionaryV2Writer struct {
 
 	count int
 	data  map[string][]int
+	held  int // size of what is in data
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
@@ -602,10 +606,14 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		data := []byte(s)
 		l := len(data)
 
-		vs := w.data[s]
+		vs, found := w.data[s]
+		if !found {
+			w.held += l
+		}
 		vs = append(vs, w.count)
 		w.data[s] = vs
 		w.count++
+		w.held += positionSize
 
 		*w.stats.NumberOfValues++
 		*w.stats.StringStatistics.Sum += int64(l)
@@ -763,13 +771,13 @@ func (w *stringDictionaryV2Writer) Reset() {
 
 	w.data = map[string][]int{}
 	w.count = 0
+	w.held = 0
 }
 
+// dictionary and positions get into streams when flushing, until then they are held
 func (w stringDictionaryV2Writer) Size() int {
-	// fixme: size calculation
-
 	if w.schema.HasNulls {
-		return w.present.Size() + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+		return w.held + w.present.Size() + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
 	}
-	return w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+	return w.held + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
 }
-- 
2.43.0

