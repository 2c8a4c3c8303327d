#!/usr/bin/env python3
# Source of properties.jsonl: python3 gen/props.py > properties.jsonl
import json
COL="orc/column/"
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
allcols=[COL+f for f in ("bool.go","byte.go","int.go","float.go","string.go","binary.go","decimal.go","time.go","list.go","map.go","struct.go")]

p("C01","Null markers and stored values stay aligned, row by row",
 "For every column that may hold nulls, writing a row records exactly one null marker, and exactly one value in each value stream of the column if and only if the row is not null; reading a row consumes exactly one marker and one value of each value stream under the same condition, and reports the row null if and only if its marker says so. A column without nulls has no markers and one value per row. Every row of the batch handed in or out is treated so, for each column type.",
 ["inputs","histories"],"for every column type, every pattern of nulls, every batch and every sequence of batches",
 "The tests write one or two null patterns per column type and read them back in whole batches; the alignment has to hold for every pattern, length and batch boundary.",
 allcols,[("present/value stream writes of a row","orc/column/*.go Write"),("present/value stream reads of a batch","orc/column/*.go NextBatch"),("nulls of a struct passed to its children","orc/column/struct.go fillNulls")],
 ["column.Reader.NextBatch","column.Writer.Write"])
p("C02","Skipping rows consumes exactly what reading them would",
 "Skipping n rows of a column leaves every stream of it (and of its child columns) exactly where reading n rows would have left it, including rows that are null, variable length values and elements of lists and maps. The next row read after a skip is therefore the row after the skipped ones.",
 ["inputs","histories"],"for every column type, null pattern, row count and mix of skips and reads",
 "Tests skip inside a few short columns; a stream left behind by one type only shows for particular null patterns or nestings.",
 allcols,[("Skip of each column reader","orc/column/*.go Skip"),("NextBatch of each column reader","orc/column/*.go NextBatch")],["column.Reader.Skip"])
p("C03","Row index positions are read back in the layout they were recorded",
 "For every column that records row index entries, an entry is recorded each time as many rows as the index stride have been written, null rows included, and holds the positions of all streams of the column in a fixed order; seeking to a stride hands every stream exactly the positions recorded for it, for all combinations of compression and presence of nulls. Seeking to the start of a stripe puts every stream at position zero.",
 ["inputs","configurations","histories"],"for every column type, with and without nulls, compressed or not, every stride and row count",
 "The index tests cover few column types and one configuration each, and positions of one stream are mostly zero in small data, so that swapped positions go unnoticed.",
 allcols+["orc/stream/writer.go","orc/column/reader.go","orc/encoding/package.go"],
 [("recording of index entries","orc/column/*.go Write"),("positions of a stream","orc/stream/writer.go GetPosition"),("use of positions","orc/column/*.go SeekStride"),("entry of a stride","orc/column/reader.go getStridePositions")],["column.Reader.SeekStride"])
p("C04","Seeking moves every level to the requested row",
 "After a successful seek to a row number the next row delivered is that row, followed by all later rows in order, whatever was read before: stripe, row within the stripe, and the position inside every stream are all moved, and nothing decoded before the seek is delivered after it. A row number at or beyond the number of rows is refused with an error.",
 ["inputs","histories"],"for every file, every row number and every sequence of reads and seeks",
 "Tests seek a few times on fresh readers; values left over from earlier reads, and stripes already consumed, need particular histories.",
 ["orc/reader.go","orc/stripe.go","orc/stream/reader.go","orc/stream/int.go","orc/stream/bool.go","orc/stream/byte.go","orc/stream/time.go"],
 [("seek of a batch reader","orc/reader.go batchReader.Seek"),("seek of a stripe","orc/stripe.go stripeReader.Seek"),("seek of a stream","orc/stream/reader.go seek")],["BatchReader.Seek","BatchReader.Next"])
p("C05","A stripe's directory describes the bytes that were written",
 "In every stripe written, the streams lie in the order the stripe's footer lists them and each has the length listed; the recorded index, data and footer lengths equal the bytes written, and the next stripe is recorded at the byte following the previous one. A reader locates every stream by the same arithmetic, whether or not the column is read.",
 ["inputs","configurations","histories"],"for every schema, content, compression setting and number of stripes",
 "Tests read files back through the same code with one or two stripes; an offset that is wrong only for a column with nulls, an unread column or a later stripe is not sampled.",
 ["orc/stripe.go","orc/stream/writer.go"]+allcols,
 [("stripe flush and footer","orc/stripe.go flushOut, writeFooter, forward"),("stream order of columns","orc/column/*.go WriteOut, GetStreamInfos"),("stream location","orc/stripe.go stripeReader.init")],["stripe footer","stripe information"])
p("C06","Every stream is decoded by the counterpart of what encoded it",
 "For each column type and encoding a writer accepts, each stream of it is read back with the decoder matching the encoder it was written with, in signedness, width and kind, and the decoded value is delivered in the row and in the Go type the writer takes. No value of one stream is used in place of another's.",
 ["inputs","configurations"],"for every column type, encoding and value",
 "Tests use small positive sample values for which mismatched decoders often agree.",
 ["orc/column/package.go","orc/stream/writer.go"]+allcols,
 [("stream constructors of writers","orc/column/*.go New*Writer"),("stream constructors of readers","orc/column/*.go InitStream"),("values handed out","orc/column/*.go NextBatch")],["column.NewReader","column.NewWriter"])
p("C07","Compressed data is framed in chunks a reader can undo",
 "Data compressed on writing consists of chunks, each preceded by a three byte header giving its exact length and whether it is stored as is; no chunk holds more original bytes than the configured chunk size, every byte put in appears in exactly one chunk in order, and each chunk can be decompressed alone. Reading takes the header apart the same way, appends exactly that chunk's bytes and advances by exactly header and chunk.",
 ["inputs","configurations"],"for every amount of data, chunk size and compressibility",
 "The tests compress data of one or two sizes; multiples of the chunk size, incompressible data and many chunks are not combined.",
 ["orc/common/misc.go","orc/stream/reader.go","orc/stream/writer.go"],
 [("chunk writing","orc/common/misc.go"),("chunk header","orc/common/misc.go encChunkHeader, DecChunkHeader"),("chunk reading","orc/stream/reader.go readAChunk, orc/common/misc.go DecompressChunks")],["common.CompressingAllInChunks","common.DecompressChunks"])
p("C08","No failure underneath is reported as success",
 "When reading, writing, seeking, (de)compressing, encoding, decoding or closing the file being written fails at any step of an operation, the operation returns an error: no such failure is dropped, overwritten or turned into a success or an end of data. Values of a failed step are not delivered as if they were good.",
 ["fault_sequences","inputs","crash_points"],"for every operation and every point at which a step of it can fail",
 "No test injects a failure; each call site would need its own.",
 ["orc/reader.go","orc/writer.go","orc/stripe.go","orc/common/misc.go","orc/stream/*.go","orc/encoding/*.go","orc/column/*.go","orc/io/file.go"],
 [("error returns","all functions with an error result")],["every exported operation"])
p("C09","Every file handle opened is closed",
 "Each handle opened on behalf of a file reader, batch reader or file writer is closed when that reader or writer is closed, and also when opening or creating it fails half way. Closing a batch reader closes the handles of all stripes and all streams of all columns read, and only those.",
 ["fault_sequences","configurations","histories"],"for every schema, projection, number of stripes and point of failure",
 "Leaked descriptors do not fail a test; the paths on which an open fails half way are never executed.",
 ["orc/reader.go","orc/writer.go","orc/stripe.go","orc/stream/*.go","orc/column/*.go","orc/io/file.go"],
 [("handle per stream","orc/column/*.go InitStream"),("closing of columns","orc/column/*.go Close"),("closing of stripes and files","orc/stripe.go, orc/reader.go, orc/writer.go")],["BatchReader.Close","Reader.Close","Writer.Close"])
p("C10","Readers and writers do not influence each other",
 "Two file readers or file writers, used one after the other or at the same time from different goroutines, behave as if the other did not exist: operations change no state shared by all of the package, and start no activity of their own. Each stream of a reader has a file position of its own.",
 ["schedules","histories"],"for every interleaving of operations on different readers and writers",
 "Tests run one reader or writer at a time.",
 ["orc/api/type.go","orc/stream/*.go","orc/encoding/*.go","orc/column/*.go","orc/reader.go","orc/writer.go"],
 [("package level variables","orc/**"),("handle cloned for each stream","orc/column/*.go InitStream")],["all operations"])
p("C11","A closed file is complete and describes itself",
 "A file whose writer was closed without error starts with the magic bytes and ends with footer, postscript and one byte holding the postscript's length; the footer lists every stripe written with the total of their rows and bytes, the schema and the statistics of every column, and the postscript the footer's length and the compression actually used. A reader locates postscript and footer by those fields and reads all else with the compression, chunk size and schema found there.",
 ["inputs","configurations","histories"],"for every schema, number of rows and stripes, compression setting and file size",
 "Tests write small files with default options; tails longer than the first read and files with several stripes are hardly sampled.",
 ["orc/writer.go","orc/reader.go","orc/api/type.go"],
 [("file tail written","orc/writer.go Close, writeFileTail"),("file tail read","orc/reader.go extractFileTail, newReader"),("schema to types and back","orc/api/type.go SchemasToTypes, orc/reader.go unmarshallSchema")],["Writer.Close","NewOSFileReader"])
p("C12","Reading batch by batch delivers every row once and then the end",
 "Calling for the next batch until the end is reported delivers every row of every stripe exactly once and in order, whatever the batch size, and reports the end together with the last row or afterwards, never before. A batch never mixes up rows of different stripes, never exceeds its capacity, and carries nothing over from its previous use.",
 ["inputs","histories","configurations"],"for every number of rows and stripes and every batch size",
 "Tests use batch sizes that divide or exceed the row count; a row lost or repeated at a stripe or batch boundary needs particular numbers.",
 ["orc/reader.go","orc/stripe.go"],
 [("batch loop","orc/reader.go batchReader.Next"),("rows of a stripe","orc/stripe.go stripeReader.next, prepareVector, setVectorSize")],["BatchReader.Next"],
 [("cursor","rows delivered","orc/reader.go batchReader.cursor, orc/stripe.go stripeReader.cursor")])
p("C13","Reading some columns gives the same values as reading all",
 "When only some columns are read, each of them delivers the same values as when all columns are read: streams of columns left out are passed over by their full length, and columns, their streams and children are told apart by column id only. Columns left out are neither opened nor delivered.",
 ["configurations","inputs"],"for every schema and every subset of columns which has with a column its parents, and with a list or map its elements",
 "One test reads a subset of one fixed file.",
 ["orc/stripe.go","orc/api/type.go"],
 [("projection","orc/api/type.go BatchOption.IsInclude, createVector"),("streams and children of read columns","orc/stripe.go stripeReader.init")],["Reader.CreateBatchReader"])
p("C14","Column statistics count what was written",
 "The statistics of each column in the footer report the number of non-null values written over all stripes, whether the column may hold nulls, and as size on disk the sum of the lengths of all its streams; for integer, floating point, date and timestamp columns minimum, maximum (and where recorded the sum) are those of the values written, for the first value as for any other. Null rows leave all of them unchanged.",
 ["inputs","histories"],"for every sequence of values and nulls and every number of stripes",
 "Tests check no statistics, or those of one short ascending column.",
 allcols+["orc/writer.go"],
 [("update per value","orc/column/*.go Write"),("size per stripe","orc/column/*.go Flush"),("statistics in footer","orc/writer.go newWriter, writeFileTail")],["Reader.GetStatistics"])
p("C15","Every stripe starts from a clean slate",
 "After a stripe has been written out, nothing of its rows is left in any stream, encoder, dictionary, counter, index or stripe record that the next stripe is built from; file wide statistics alone carry on. Data can only be written out after it was flushed, and each stripe's rows are written exactly once.",
 ["histories","inputs"],"for every number of stripes and contents",
 "Few tests write more than one stripe, and none with dictionary, index and nulls in all of them.",
 ["orc/stripe.go","orc/stream/writer.go","orc/column/*.go","orc/encoding/*.go"],
 [("reset of columns and streams","orc/column/*.go Reset, orc/stream/writer.go Reset"),("encoder flush","orc/encoding/*.go Flush"),("next stripe","orc/stripe.go forward")],["column.Writer.Reset"])
p("C16","Run length headers mean the same to writer and reader",
 "For byte and integer run length encodings, the fields the writer packs into a run's header (kind, width code, length, patch sizes) are unpacked by the reader at the same bit positions and with the same offsets, and the width code tables of both sides are inverse to each other. No run is written whose length, width or patch exceeds what its header can hold.",
 ["inputs"],"for every run of values",
 "Each header value occurs only for particular run lengths and widths; tests sample a handful of published examples.",
 ["orc/encoding/int.go","orc/encoding/byte.go","orc/encoding/package.go","orc/encoding/bool.go"],
 [("integer runs","orc/encoding/int.go"),("byte runs","orc/encoding/byte.go"),("width codes","orc/encoding/int.go")],["encoding.Encoder","encoding.IntDecoder"])
p("C17","What is not supported is refused with an error",
 "Asking for a column type, encoding, compression or stream the package does not implement, for an index stride that is not there, or for values of a type not matching the request fails with an error; no such request yields a missing object without an error, or is silently treated as something else. Whatever combination of type and encoding the writer accepts, the reader accepts too.",
 ["configurations","inputs"],"for every kind of column, encoding, compression and stream",
 "Tests construct supported combinations only.",
 ["orc/column/package.go","orc/common/misc.go","orc/stripe.go","orc/api/type.go","orc/column/*.go"],
 [("factories","orc/column/package.go NewReader, NewWriter"),("compression kinds","orc/common/misc.go"),("stream kinds","orc/column/*.go InitStream")],["column.NewReader","column.NewWriter"])
p("C18","Reading never changes a file",
 "No operation of a file reader or batch reader writes to, truncates, creates, renames or removes a file: files are opened for reading only, and the only handles written to are those a file writer created. A writer writes only to the path it was given.",
 ["inputs","histories","programs"],"for every operation of the reading side",
 "A test that reads back what it wrote does not notice a write on the reading side.",
 ["orc/io/file.go","orc/reader.go","orc/stripe.go","orc/stream/reader.go"],
 [("opening of files","orc/io/file.go"),("call graph from the reading side","orc/**")],["NewOSFileReader"])
p("C19","Writing leaves the caller's data alone and keeps no hold of it",
 "Writing a batch modifies neither the batch, nor its values, nor the schema's structure, and after the call returns the writer keeps no reference to memory the caller may change: a batch or byte slice reused for the next call does not alter rows already written. The statistics and streams hold copies.",
 ["histories","inputs"],"for every batch and every later modification of it by the caller",
 "Tests build a fresh batch for every call.",
 ["orc/stripe.go","orc/column/*.go","orc/encoding/*.go","orc/stream/writer.go"],
 [("value handling in columns and encoders","orc/column/*.go Write, orc/encoding/*.go Encode")],["Writer.Write"])
p("C20","Values handed out stay valid",
 "A value delivered in a batch (strings and byte slices included) is not changed by later reads, skips or seeks of the same reader: it does not share memory with the reader's internal buffers. Every delivered value has memory of its own.",
 ["histories","inputs"],"for every delivered value and every later operation",
 "Tests compare each batch before reading the next.",
 ["orc/encoding/string.go","orc/stream/string.go","orc/column/*.go"],
 [("bytes decoded into fresh memory","orc/encoding/string.go DecodeBytes"),("values stored in batches","orc/column/*.go NextBatch")],["BatchReader.Next"])
p("C21","A flush hands everything written to the file",
 "When a stripe is flushed every value written to a column since the last stripe reaches its streams' bytes: values pending in encoders, dictionaries and uncompressed buffers are encoded, compressed and written out before lengths are recorded. Nothing is written after the lengths were taken and no value is flushed twice.",
 ["inputs","histories"],"for every number of values pending at a flush",
 "Whether something is pending depends on run lengths and chunk fill at the moment of the flush.",
 ["orc/column/*.go","orc/stream/writer.go","orc/encoding/*.go","orc/stripe.go"],
 [("flush of columns","orc/column/*.go Flush"),("flush of streams","orc/stream/writer.go Flush"),("flush of encoders","orc/encoding/*.go Flush")],["Writer.Close"])
# not applicable in this family
p("C22","Integer runs decode to the values encoded",
 "Every sequence of integers written through run length encoding is read back equal, in all sub encodings (short repeat, direct, patched base, delta), signed and unsigned.",
 ["inputs"],"for every sequence of 64 bit integers","Tests sample published examples.",
 ["orc/encoding/int.go"],[("encoder and decoder","orc/encoding/int.go")],["encoding.Encoder"])
p("C23","Dates, timestamps, decimals and floats keep their value",
 "A date, timestamp, decimal or floating point number written is read back denoting the same day, instant or number.",
 ["inputs"],"for every representable value","Tests convert a few values.",
 ["orc/api/type.go","orc/encoding/time.go","orc/encoding/float.go"],[("conversions","orc/api/type.go")],["api.FromDays"])
p("C24","A stripe is flushed as soon as it reaches the configured size",
 "While rows are written the writer adds up what all columns hold in the buffers of all their streams (null markers, values, lengths; compressed and not yet compressed bytes), each counted once, and what a column keeps elsewhere until the flush (a dictionary) enlarges its size with every value. The sum is looked at after every row, and the stripe is flushed as soon as it reaches the configured stripe size and not before, so that memory use is bounded by it (values pending in an encoder, a bounded run, aside).",
 ["inputs","configurations","histories"],"for every column type, with and without nulls, compressed or not, every content, batch size and stripe size",
 "Tests write small data, and a buffer left out of the sum changes no value read back; stripes only grow.",
 ["orc/stripe.go","orc/column/*.go","orc/stream/writer.go"],
 [("size of a stripe","orc/stripe.go write, size"),("size of a column","orc/column/*.go Size"),("size of a stream","orc/stream/writer.go Size"),("values held for a dictionary","orc/column/string.go stringDictionaryV2Writer")],["stripe information","Writer.Write"])
p("C25","Every operation comes to an end",
 "No operation loops or calls itself for ever: every loop of reading, writing, seeking, skipping, encoding, decoding, compressing and decompressing makes progress each time round (consumes input, hands out rows or lessens what is left to do), and a function calling itself does so for a part of what it was given. Input that ends early, or is done, therefore ends the operation with a result or an error; it never hangs.",
 ["inputs","faults","histories"],"for every input, truncated or malformed ones included, and every number of values, rows and chunks",
 "Tests feed complete files and short sequences; a loop which makes no progress needs a truncated stream, an empty remainder or a particular number of pending values.",
 ["orc/reader.go","orc/stripe.go","orc/stream/*.go","orc/io/file.go","orc/encoding/*.go","orc/column/*.go","orc/common/misc.go","orc/api/*.go"],
 [("loops reading chunks","orc/stream/reader.go"),("loops over pending values","orc/encoding/*.go"),("loops over rows","orc/column/*.go, orc/stripe.go"),("recursion over types","orc/api/type.go")],["BatchReader.Next","Writer.Write","Reader.Close"])
for x in P: print(json.dumps(x))
