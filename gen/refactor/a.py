R = []
def r(id, *edits, **kw):
    R.append(dict(id=id, edits=list(edits), **kw))

W = 'orc/writer.go'
S = 'orc/stripe.go'
RD = 'orc/reader.go'

r('tail-helper', (W, '''	var footLen uint64
	if w.opts.CompressionKind == pb.CompressionKind_NONE {
		footLen = uint64(len(footBytes))
		if _, err := w.f.Write(footBytes); err != nil {
			return err
		}
	} else {
		footCmpBuf := &bytes.Buffer{}
		if err = common.CompressingAllInChunks(w.opts.CompressionKind, w.opts.ChunkSize, footCmpBuf, bytes.NewBuffer(footBytes)); err != nil {
			return err
		}
		footLen = uint64(footCmpBuf.Len())
		if _, err := footCmpBuf.WriteTo(w.f); err != nil {
			return err
		}
	}
''', '''	footLen, err := w.writeFooter(footBytes)
	if err != nil {
		return err
	}
'''), (W, None, '''
// writeFooter writes the encoded footer, compressed if asked for, and returns the length written
func (w *writer) writeFooter(footBytes []byte) (uint64, error) {
	if w.opts.CompressionKind == pb.CompressionKind_NONE {
		if _, err := w.f.Write(footBytes); err != nil {
			return 0, err
		}
		return uint64(len(footBytes)), nil
	}
	compressed := &bytes.Buffer{}
	if err := common.CompressingAllInChunks(w.opts.CompressionKind, w.opts.ChunkSize, compressed, bytes.NewBuffer(footBytes)); err != nil {
		return 0, err
	}
	length := uint64(compressed.Len())
	if _, err := compressed.WriteTo(w.f); err != nil {
		return 0, err
	}
	return length, nil
}
'''))

r('tail-locals', (W, '''	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}

	for _, si := range w.stripe.infos {
		*ft.ContentLength += si.GetIndexLength() + si.GetDataLength() + si.GetFooterLength()
		*ft.NumberOfRows += si.GetNumberOfRows()
	}
	ft.Stripes = w.stripe.infos
	ft.Types = api.SchemasToTypes(w.schemas)
	ft.Statistics = w.columnStats
''', '''	var content, rows uint64
	for i := 0; i < len(w.stripe.infos); i++ {
		si := w.stripe.infos[i]
		content += si.GetIndexLength()
		content += si.GetDataLength()
		content += si.GetFooterLength()
		rows += si.GetNumberOfRows()
	}
	ft := &pb.Footer{
		HeaderLength:  &HeaderLength,
		ContentLength: &content,
		NumberOfRows:  &rows,
		Stripes:       w.stripe.infos,
		Types:         api.SchemasToTypes(w.schemas),
		Statistics:    w.columnStats,
	}
'''))

r('write-full-helper', (S, '''		if stripe.size() >= stripe.opts.StripeSize {
			*stripe.info.NumberOfRows += count
			count = 0

			// improve:  concurrent flush?
			if err := stripe.flushOut(); err != nil {
				return err
			}
			stripe.forward()
		}
''', '''		if !stripe.full() {
			continue
		}
		*stripe.info.NumberOfRows += count
		count = 0

		// improve:  concurrent flush?
		if err := stripe.finish(); err != nil {
			return err
		}
'''), (S, None, '''
func (stripe *stripeWriter) full() bool {
	return stripe.size() >= stripe.opts.StripeSize
}

func (stripe *stripeWriter) finish() error {
	if err := stripe.flushOut(); err != nil {
		return err
	}
	stripe.forward()
	return nil
}
'''))

r('write-count-direct', (S, '''	count := uint64(0)
	for i := 0; i < vec.Len(); i++ {
		if err := stripe.writeValue(i, vec); err != nil {
			return err
		}
		count++

		if stripe.size() >= stripe.opts.StripeSize {
			*stripe.info.NumberOfRows += count
			count = 0

''', '''	n := vec.Len()
	for i := 0; i < n; i++ {
		if err := stripe.writeValue(i, vec); err != nil {
			return err
		}
		*stripe.info.NumberOfRows++

		if stripe.size() >= stripe.opts.StripeSize {
'''), (S, '''	*stripe.info.NumberOfRows += count
	return nil
}

func (stripe *stripeWriter) writeValue''', '''	return nil
}

func (stripe *stripeWriter) writeValue'''))

r('flushout-split', (S, '''	for _, c := range stripe.columnWriters {
		if err := c.Flush(); err != nil {
			return err
		}
	}

	if stripe.opts.WriteIndex {
		for _, c := range stripe.columnWriters {
			index := c.GetIndex()
			var indexData []byte
			indexData, err := proto.Marshal(index)
			if err != nil {
				return err
			}
			nd, err := stripe.out.Write(indexData)
			if err != nil {
				return errors.WithStack(err)
			}
			*stripe.info.IndexLength += uint64(nd)
		}
		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
	}

	for _, c := range stripe.columnWriters {
		ns, err := c.WriteOut(stripe.out)
		if err != nil {
			return err
		}
		*stripe.info.DataLength += uint64(ns)
	}

	if err := stripe.writeFooter(); err != nil {
		return errors.WithStack(err)
	}
	return nil
}
''', '''	if err := stripe.flushColumns(); err != nil {
		return err
	}
	if stripe.opts.WriteIndex {
		if err := stripe.writeIndexes(); err != nil {
			return err
		}
	}
	if err := stripe.writeColumns(); err != nil {
		return err
	}
	return errors.WithStack(stripe.writeFooter())
}

func (stripe *stripeWriter) flushColumns() error {
	for i := range stripe.columnWriters {
		if err := stripe.columnWriters[i].Flush(); err != nil {
			return err
		}
	}
	return nil
}

func (stripe *stripeWriter) writeIndexes() error {
	var length uint64
	for _, c := range stripe.columnWriters {
		data, err := proto.Marshal(c.GetIndex())
		if err != nil {
			return err
		}
		n, err := stripe.out.Write(data)
		if err != nil {
			return errors.WithStack(err)
		}
		length += uint64(n)
	}
	*stripe.info.IndexLength += length
	log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
	return nil
}

func (stripe *stripeWriter) writeColumns() error {
	for i := 0; i < len(stripe.columnWriters); i++ {
		n, err := stripe.columnWriters[i].WriteOut(stripe.out)
		if err != nil {
			return err
		}
		*stripe.info.DataLength += uint64(n)
	}
	return nil
}
'''))

r('stripe-info-helper', (S, '''	offset := stripe.info.GetOffset() + stripe.info.GetIndexLength() + stripe.info.GetDataLength() + stripe.info.GetFooterLength()
	stripe.info = &pb.StripeInformation{Offset: &offset, IndexLength: new(uint64), DataLength: new(uint64), FooterLength: new(uint64), NumberOfRows: new(uint64)}
	for _, c := range stripe.columnWriters {
		c.Reset()
	}
''', '''	done := stripe.info
	stripe.info = newStripeInfo(done.GetOffset() + done.GetIndexLength() + done.GetDataLength() + done.GetFooterLength())
	for i := range stripe.columnWriters {
		stripe.columnWriters[i].Reset()
	}
'''), (S, '''	o := offset
	info := &pb.StripeInformation{Offset: &o, IndexLength: new(uint64), DataLength: new(uint64), FooterLength: new(uint64),
		NumberOfRows: new(uint64)}
	stripe = &stripeWriter{out: out, columnWriters: writers, info: info,''', '''	stripe = &stripeWriter{out: out, columnWriters: writers, info: newStripeInfo(offset),'''),
 (S, None, '''
func newStripeInfo(offset uint64) *pb.StripeInformation {
	return &pb.StripeInformation{
		Offset:       &offset,
		IndexLength:  new(uint64),
		DataLength:   new(uint64),
		FooterLength: new(uint64),
		NumberOfRows: new(uint64),
	}
}
'''))

r('init-split', (S, '''	// streams has sequence
	indexStart := info.GetOffset()
	dataStart := indexStart + info.GetIndexLength()
	for _, streamInfo := range footer.GetStreams() {
		id := streamInfo.GetColumn()
		streamKind := streamInfo.GetKind()
		length := streamInfo.GetLength()

		if streamKind == pb.Stream_ROW_INDEX {
			if readers[id] != nil {
				if err := readers[id].InitIndex(indexStart, length); err != nil {
					return err
				}
			}
			indexStart += length
			continue
		}

		if readers[id] != nil {
			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
				return err
			}
		}
		dataStart += length
	}

	// build tree
	for _, schema := range stripe.schemas {
		for i, c := range schema.Children {
			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
				switch schema.Kind {
''', '''	if err := initStreams(readers, info, footer); err != nil {
		return err
	}
	return stripe.attachChildren(readers)
}

// streams have a sequence
func initStreams(readers []column.Reader, info *pb.StripeInformation, footer *pb.StripeFooter) error {
	indexStart := info.GetOffset()
	dataStart := indexStart + info.GetIndexLength()
	streams := footer.GetStreams()
	for i := 0; i < len(streams); i++ {
		s := streams[i]
		r := readers[s.GetColumn()]
		if s.GetKind() == pb.Stream_ROW_INDEX {
			if r != nil {
				if err := r.InitIndex(indexStart, s.GetLength()); err != nil {
					return err
				}
			}
			indexStart += s.GetLength()
		} else {
			if r != nil {
				if err := r.InitStream(s, dataStart); err != nil {
					return err
				}
			}
			dataStart += s.GetLength()
		}
	}
	return nil
}

func (stripe *stripeReader) attachChildren(readers []column.Reader) error {
	for _, schema := range stripe.schemas {
		for i, c := range schema.Children {
			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
				switch schema.Kind {
'''))

r('footer-decompress-helper', (S, '''	if stripe.ropts.CompressionKind != pb.CompressionKind_NONE {
		fb := &bytes.Buffer{}
		if err := common.DecompressChunks(stripe.ropts.CompressionKind, fb, bytes.NewBuffer(footerBuf)); err != nil {
			return nil, err
		}
		footerBuf = fb.Bytes()
	}
''', '''	footerBuf, err := decompressed(stripe.ropts.CompressionKind, footerBuf)
	if err != nil {
		return nil, err
	}
'''), (S, None, '''
func decompressed(kind pb.CompressionKind, data []byte) ([]byte, error) {
	if kind == pb.CompressionKind_NONE {
		return data, nil
	}
	out := &bytes.Buffer{}
	if err := common.DecompressChunks(kind, out, bytes.NewBuffer(data)); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}
'''))

I = 'orc/column/int.go'
r('int-stats-helper', (I, '''		*w.stats.IntStatistics.Sum += v
		if *w.stats.NumberOfValues == 0 || v < *w.stats.IntStatistics.Minimum {
			*w.stats.IntStatistics.Minimum = v
		}
		if *w.stats.NumberOfValues == 0 || v > *w.stats.IntStatistics.Maximum {
			*w.stats.IntStatistics.Maximum = v
		}
		*w.stats.NumberOfValues++
''', '''		addInt(w.stats, v)
'''), (I, '''			*w.indexStats.IntStatistics.Sum += v
			if *w.indexStats.NumberOfValues == 0 || v < *w.indexStats.IntStatistics.Minimum {
				*w.indexStats.IntStatistics.Minimum = v
			}
			if *w.indexStats.NumberOfValues == 0 || v > *w.indexStats.IntStatistics.Maximum {
				*w.indexStats.IntStatistics.Maximum = v
			}
			*w.indexStats.NumberOfValues++
''', '''			addInt(w.indexStats, v)
'''), (I, None, '''
func addInt(stats *pb.ColumnStatistics, v int64) {
	is := stats.IntStatistics
	*is.Sum += v
	first := *stats.NumberOfValues == 0
	if first || v < *is.Minimum {
		*is.Minimum = v
	}
	if first || *is.Maximum < v {
		*is.Maximum = v
	}
	*stats.NumberOfValues += 1
}
'''))

r('int-value-helper', (I, '''	var v int64
	if !value.Null {
		switch w.bits {
		case BitsSmallInt:
			v = int64(value.V.(int16))
		case BitsInt:
			v = int64(value.V.(int32))
		case BitsBigInt:
			v = value.V.(int64)
		}

		if err''', '''	var v int64
	if !value.Null {
		v = widen(value, w.bits)
		if err'''), (I, None, '''
func widen(value api.Value, bits int) int64 {
	if bits == BitsSmallInt {
		return int64(value.V.(int16))
	}
	if bits == BitsInt {
		return int64(value.V.(int32))
	}
	if bits == BitsBigInt {
		return value.V.(int64)
	}
	return 0
}
'''))

r('int-make-helper', (I, '''	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
		IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
''', '''	stats := newIntStats(false)
'''), (I, '''		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
			IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
''', '''		indexStats = newIntStats(false)
'''), (I, '''			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
			if w.schema.HasNulls {
				*w.indexStats.HasNull = true
			}
''', '''			w.indexStats = newIntStats(w.schema.HasNulls)
'''), (I, None, '''
func newIntStats(nulls bool) *pb.ColumnStatistics {
	return &pb.ColumnStatistics{
		NumberOfValues: new(uint64),
		HasNull:        &nulls,
		BytesOnDisk:    new(uint64),
		IntStatistics:  &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)},
	}
}
'''))

r('int-index-helper', (I, '''	if w.opts.WriteIndex {
		w.indexInRows++
		if w.indexInRows >= w.opts.IndexStride {
			var pp []uint64
			if w.schema.HasNulls {
				pp = append(pp, w.present.GetPosition()...)
			}
			pp = append(pp, w.data.GetPosition()...)
			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})

			// new stats
			w.indexStats =''', '''	if w.opts.WriteIndex {
		w.indexInRows++
		if w.indexInRows >= w.opts.IndexStride {
			w.record(w.data)

			// new stats
			w.indexStats ='''), (I, None, '''
// record the positions of all streams in a new index entry
func (w *writer) record(streams ...stream.Writer) {
	var positions []uint64
	if w.schema.HasNulls {
		positions = w.present.GetPosition()
	}
	for _, s := range streams {
		positions = append(positions, s.GetPosition()...)
	}
	entry := &pb.RowIndexEntry{Statistics: w.indexStats}
	entry.Positions = positions
	w.index.Entry = append(w.index.Entry, entry)
}
'''))

r('int-seek-walk', (I, '''	var dataChunk, dataChunkOffset, dataOffset uint64

	pos, err := r.getStridePositions(stride)
	if err != nil {
		return err
	}

	if r.present != nil {
		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
		if r.opts.CompressionKind == pb.CompressionKind_NONE {
			pChunkOffset = pos[0]
			pOffset1 = pos[1]
			pOffset2 = pos[2]

			dataChunkOffset = pos[3]
			dataOffset = pos[4]

		} else {
			pChunk = pos[0]
			pChunkOffset = pos[1]
			pOffset1 = pos[2]
			pOffset2 = pos[3]

			dataChunk = pos[4]
			dataChunkOffset = pos[5]
			dataOffset = pos[6]
		}

		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
			return err
		}

	} else {

		if r.opts.CompressionKind == pb.CompressionKind_NONE {
			dataChunkOffset = pos[0]
			dataOffset = pos[1]
		} else {
			dataChunk = pos[0]
			dataChunkOffset = pos[1]
			dataOffset = pos[2]
		}
	}

	return r.data.Seek(dataChunk, dataChunkOffset, dataOffset)
''', '''	pos, err := r.getStridePositions(stride)
	if err != nil {
		return err
	}
	compressed := r.opts.CompressionKind != pb.CompressionKind_NONE

	if r.present != nil {
		var chunk uint64
		if compressed {
			chunk = pos[0]
			pos = pos[1:]
		}
		if err := r.present.Seek(chunk, pos[0], pos[1], pos[2]); err != nil {
			return err
		}
		pos = pos[3:]
	}

	var chunk uint64
	if compressed {
		chunk, pos = pos[0], pos[1:]
	}
	return r.data.Seek(chunk, pos[0], pos[1])
'''))

r('int-next-range', (I, '''	var err error
	for i := 0; i < len(vec.Vector); i++ {
		if r.present != nil {
			var p bool
			if p, err = r.present.Next(); err != nil {
				return err
			}
			vec.Vector[i].Null = !p
		}

		if !vec.Vector[i].Null {
			var v int64
			if v, err = r.data.NextInt64(); err != nil {
				return err
			}
			switch r.bits {
			case BitsSmallInt:
				vec.Vector[i].V = int16(v)
			case BitsInt:
				vec.Vector[i].V = int32(v)
			case BitsBigInt:
				vec.Vector[i].V = v
			default:
				return errors.New("reader bits error")
			}
		}
	}
	return nil
}
''', '''	for i := range vec.Vector {
		if err := r.next(&vec.Vector[i]); err != nil {
			return err
		}
	}
	return nil
}

func (r *IntV2Reader) next(value *api.Value) error {
	if r.present != nil {
		present, err := r.present.Next()
		if err != nil {
			return err
		}
		value.Null = !present
	}
	if value.Null {
		return nil
	}
	v, err := r.data.NextInt64()
	if err != nil {
		return err
	}
	switch r.bits {
	case BitsBigInt:
		value.V = v
	case BitsInt:
		value.V = int32(v)
	case BitsSmallInt:
		value.V = int16(v)
	default:
		return errors.New("reader bits error")
	}
	return nil
}
'''))

r('int-skip-down', (I, '''	var err error
	p := true

	for i := 0; i < int(rows); i++ {
		if r.present != nil {
			if p, err = r.present.Next(); err != nil {
				return err
			}
		}

		if p {
			if _, err = r.data.NextInt64(); err != nil {
				return err
			}
		}
	}
	return nil
''', '''	for ; rows > 0; rows-- {
		if r.present != nil {
			p, err := r.present.Next()
			if err != nil {
				return err
			}
			if !p {
				continue
			}
		}
		if _, err := r.data.NextInt64(); err != nil {
			return err
		}
	}
	return nil
'''))

r('int-flush-order', (I, '''	if w.schema.HasNulls {
		if err := w.present.Flush(); err != nil {
			return err
		}
		*w.stats.BytesOnDisk += w.present.Info().GetLength()
	}
	if err := w.data.Flush(); err != nil {
		return err
	}
	*w.stats.BytesOnDisk += w.data.Info().GetLength()

	w.flushed = true
	return nil
''', '''	if err := w.data.Flush(); err != nil {
		return err
	}
	size := w.data.Info().GetLength()
	if w.schema.HasNulls {
		if err := w.present.Flush(); err != nil {
			return err
		}
		size += w.present.Info().GetLength()
	}
	*w.stats.BytesOnDisk += size
	w.flushed = true
	return nil
'''))

r('int-writeout', (I, '''	if !w.flushed {
		err = errors.New("not flushed")
		return
	}

	var pn, dn int64
	if w.schema.HasNulls {
		if pn, err = w.present.WriteOut(out); err != nil {
			return
		}
	}
	if dn, err = w.data.WriteOut(out); err != nil {
		return
	}
	n = pn + dn
	return
}
''', '''	if !w.flushed {
		return 0, errors.New("not flushed")
	}
	return writeAll(out, w.streams())
}

func (w intWriter) streams() []stream.Writer {
	if w.schema.HasNulls {
		return []stream.Writer{w.present, w.data}
	}
	return []stream.Writer{w.data}
}

func writeAll(out io.Writer, streams []stream.Writer) (n int64, err error) {
	for _, s := range streams {
		m, err := s.WriteOut(out)
		if err != nil {
			return n, err
		}
		n += m
	}
	return n, nil
}
'''), (I, '''	if w.schema.HasNulls {
		return []*pb.Stream{w.present.Info(), w.data.Info()}
	}
	return []*pb.Stream{w.data.Info()}
''', '''	var infos []*pb.Stream
	for _, s := range w.streams() {
		infos = append(infos, s.Info())
	}
	return infos
'''))

r('int-open-helper', (I, '''	f, err := r.f.Clone()
	if err != nil {
		return err
	}
	defer func() {
		if err != nil {
			f.Close()
		}
	}()
	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
		return err
	}

	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
		err := errors.New("int reader encoding direct not impl")
		return err
	}

	if info.GetKind() == pb.Stream_PRESENT {
		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
		return nil
	}
	if info.GetKind() == pb.Stream_DATA {
		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
		return nil
	}
	return errors.New("stream unknown")
}
''', '''	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
		return errors.New("int reader encoding direct not impl")
	}
	switch info.GetKind() {
	case pb.Stream_PRESENT, pb.Stream_DATA:
	default:
		return errors.New("stream unknown")
	}

	f, err := r.open(startOffset)
	if err != nil {
		return err
	}
	if info.GetKind() == pb.Stream_PRESENT {
		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
	} else {
		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
	}
	return nil
}

// open a handle of its own for a stream
func (r *reader) open(start uint64) (orcio.File, error) {
	f, err := r.f.Clone()
	if err != nil {
		return nil, err
	}
	if _, err := f.Seek(int64(start), io.SeekStart); err != nil {
		f.Close()
		return nil, err
	}
	return f, nil
}
'''))

P = 'orc/column/package.go'
r('factory-require', (P, '''	case pb.Type_SHORT:
		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
			return NewIntV2Reader(schema, opts, in, BitsSmallInt), nil
		}
		return nil, errors.New("not impl")
	case pb.Type_INT:
		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
			return NewIntV2Reader(schema, opts, in, BitsInt), nil
		}
		return nil, errors.New("not impl")
	case pb.Type_LONG:
		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
			return NewIntV2Reader(schema, opts, in, BitsBigInt), nil
		}
		return nil, errors.New("not impl")
''', '''	case pb.Type_SHORT, pb.Type_INT, pb.Type_LONG:
		if schema.Encoding != pb.ColumnEncoding_DIRECT_V2 {
			return nil, errors.New("not impl")
		}
		bits := BitsBigInt
		switch schema.Kind {
		case pb.Type_SHORT:
			bits = BitsSmallInt
		case pb.Type_INT:
			bits = BitsInt
		}
		return NewIntV2Reader(schema, opts, in, bits), nil
'''), (P, '''	case pb.Type_FLOAT:
		if schema.Encoding != pb.ColumnEncoding_DIRECT {
			return nil, errors.New("encoding error")
		}
		return newFloatWriter(schema, opts, false), nil
	case pb.Type_DOUBLE:
		if schema.Encoding != pb.ColumnEncoding_DIRECT {
			return nil, errors.New("encoding error")
		}
		return newFloatWriter(schema, opts, true), nil

	case pb.Type_CHAR:
		fallthrough
	case pb.Type_VARCHAR:
		fallthrough
	case pb.Type_STRING:
		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
			return newStringDirectV2Writer(schema, opts), nil
		}
		if schema.Encoding == pb.ColumnEncoding_DICTIONARY_V2 {
			return NewStringDictionaryV2Writer(schema, opts), nil
		}
		return nil, errors.New("encoding not impl")
''', '''	case pb.Type_FLOAT, pb.Type_DOUBLE:
		if schema.Encoding != pb.ColumnEncoding_DIRECT {
			return nil, errors.New("encoding error")
		}
		return newFloatWriter(schema, opts, schema.Kind == pb.Type_DOUBLE), nil

	case pb.Type_CHAR, pb.Type_VARCHAR, pb.Type_STRING:
		switch schema.Encoding {
		case pb.ColumnEncoding_DIRECT_V2:
			return newStringDirectV2Writer(schema, opts), nil
		case pb.ColumnEncoding_DICTIONARY_V2:
			return NewStringDictionaryV2Writer(schema, opts), nil
		default:
			return nil, errors.New("encoding not impl")
		}
'''))

SW = 'orc/stream/writer.go'
NB = '''	buf := bytes.NewBuffer(make([]byte, opts.ChunkSize))
	buf.Reset()

	var cbuf *bytes.Buffer
	if opts.CompressionKind != pb.CompressionKind_NONE {
		cbuf = bytes.NewBuffer(make([]byte, opts.ChunkSize))
		cbuf.Reset()
	}
'''
r('stream-buffers-helper', (SW, NB, '''	buf, cbuf := newBuffers(opts)
'''), (SW, None, '''

func newBuffers(opts *config.WriterOptions) (buf, compressed *bytes.Buffer) {
	buf = bytes.NewBuffer(make([]byte, 0, opts.ChunkSize))
	if opts.CompressionKind != pb.CompressionKind_NONE {
		compressed = bytes.NewBuffer(make([]byte, 0, opts.ChunkSize))
	}
	return
}
'''), all=True)

r('stream-flush-early', (SW, '''	if w.opts.CompressionKind == pb.CompressionKind_NONE {
		*w.info.Length = uint64(w.buf.Len())
	} else {
		if w.buf.Len() > 0 {
			logger.Debugf("stream writer column %d kind %s flush compressing %d values", w.info.GetColumn(), w.info.GetKind().String(), w.count)
			if err := common.CompressingAllInChunks(w.opts.CompressionKind, w.opts.ChunkSize, w.compressedBuf, w.buf); err != nil {
				return err
			}
		}
		*w.info.Length = uint64(w.compressedBuf.Len())
	}

	return nil
''', '''	if w.opts.CompressionKind == pb.CompressionKind_NONE {
		w.setLength(w.buf)
		return nil
	}
	if w.buf.Len() != 0 {
		if err := common.CompressingAllInChunks(w.opts.CompressionKind, w.opts.ChunkSize, w.compressedBuf, w.buf); err != nil {
			return err
		}
	}
	w.setLength(w.compressedBuf)
	return nil
'''), (SW, None, '''

func (w *writer) setLength(out *bytes.Buffer) {
	*w.info.Length = uint64(out.Len())
}
'''))

r('stream-out-buffer', (SW, '''	if w.opts.CompressionKind == pb.CompressionKind_NONE {
		if n, err = w.buf.WriteTo(out); err != nil {
			return 0, errors.WithStack(err)
		}
		log.Debugf("write out column %d stream %s length %d", w.info.GetColumn(), w.info.GetKind(), n)
		return
	}

	if n, err = w.compressedBuf.WriteTo(out); err != nil {
		return 0, errors.WithStack(err)
	}
''', '''	src := w.buf
	if w.opts.CompressionKind != pb.CompressionKind_NONE {
		src = w.compressedBuf
	}
	if n, err = src.WriteTo(out); err != nil {
		return 0, errors.WithStack(err)
	}
'''), (SW, '''	var pp []uint64
	if w.opts.CompressionKind != pb.CompressionKind_NONE {
		pp = append(pp, uint64(w.compressedBuf.Len()))
	}
	pp = append(pp, uint64(w.buf.Len()))
	pp = append(pp, w.encoder.GetPosition()...)
	return pp
''', '''	if w.opts.CompressionKind == pb.CompressionKind_NONE {
		return append([]uint64{uint64(w.buf.Len())}, w.encoder.GetPosition()...)
	}
	return append([]uint64{uint64(w.compressedBuf.Len()), uint64(w.buf.Len())}, w.encoder.GetPosition()...)
'''))

SR = 'orc/stream/reader.go'
r('stream-chunk-split', (SR, '''	// no compression
	if r.opts.CompressionKind == pb.CompressionKind_NONE { // no header
		// a file which is not compressed may record no chunk size
		l := r.info.GetLength() - r.readLength
		if r.opts.ChunkSize > 0 && r.opts.ChunkSize < l {
			l = r.opts.ChunkSize
		}

		logger.Tracef("read a chunk, no compression copy %d from stream", l)

		if _, err := io.CopyN(r.buf, r.f, int64(l)); err != nil {
			return errors.WithStack(err)
		}

		r.readLength += l
		return nil
	}

	head''', '''	if r.opts.CompressionKind == pb.CompressionKind_NONE {
		return r.readPlain()
	}
	return r.readCompressed()
}

func (r *reader) readPlain() error {
	left := r.info.GetLength() - r.readLength
	l := r.opts.ChunkSize
	if l == 0 {
		l = left
	}
	if left < l {
		l = left
	}
	if _, err := io.CopyN(r.buf, r.f, int64(l)); err != nil {
		return errors.WithStack(err)
	}
	r.readLength += l
	return nil
}

func (r *reader) readCompressed() error {
	head'''), (SR, '''	if r.buf.Len() >= len(p) {
		n, err = r.buf.Read(p)
		if err != nil {
			return n, errors.WithStack(err)
		}
		return
	} else if r.readLength >= r.info.GetLength() {
		return 0, errors.New("stream reach end")
	}

	for r.buf''', '''	if r.buf.Len() < len(p) && r.readLength >= r.info.GetLength() {
		return 0, errors.New("stream reach end")
	}

	for r.buf'''))

r('stream-length-once', (SR, '''	r.readLength += 3
	chunkLength, original''', '''	chunkLength, original'''), (SR, '''	r.readLength += uint64(chunkLength)
	return nil''', '''	r.readLength += 3 + uint64(chunkLength)
	return nil'''))

r('tail-read-helper', (RD, '''	if _, err := f.Seek(size-readSize, 0); err != nil {
		return nil, errors.WithStack(err)
	}
	if _, err := io.ReadFull(f, buf); err != nil {
		return nil, errors.WithStack(err)
	}
''', '''	if err := readAt(f, size-readSize, buf); err != nil {
		return nil, err
	}
'''), (RD, '''		if _, err := f.Seek(size-readSize-extra, 0); err != nil {
			return nil, errors.WithStack(err)
		}
		if _, err = io.ReadFull(f, ebuf); err != nil {
			return nil, errors.WithStack(err)
		}
''', '''		if err := readAt(f, size-readSize-extra, ebuf); err != nil {
			return nil, err
		}
'''), (RD, None, '''
func readAt(f orcio.File, offset int64, buf []byte) error {
	if _, err := f.Seek(offset, io.SeekStart); err != nil {
		return errors.WithStack(err)
	}
	_, err := io.ReadFull(f, buf)
	return errors.WithStack(err)
}
'''))

r('seek-find', (RD, '''	var rows uint64
	for i := 0; i < len(br.stripes); i++ {
		if rows+br.stripes[i].numberOfRows > rowNumber {
			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
				return err
			}
			// stripes after may have been read
			for _, s := range br.stripes[i+1:] {
				if s.cursor != 0 {
					if err := s.Seek(0); err != nil {
						return err
					}
				}
			}
			br.stripeIndex = i
			br.cursor = rowNumber
			return nil
		}
		rows += br.stripes[i].numberOfRows
	}
	return errors.New("no row found")
}
''', '''	offset := rowNumber
	for i, s := range br.stripes {
		if offset >= s.numberOfRows {
			offset -= s.numberOfRows
			continue
		}
		if err := s.Seek(offset); err != nil {
			return err
		}
		if err := br.rewind(i + 1); err != nil {
			return err
		}
		br.stripeIndex, br.cursor = i, rowNumber
		return nil
	}
	return errors.New("no row found")
}

// rewind the stripes from the one given on, they may have been read
func (br *batchReader) rewind(from int) error {
	for i := from; i < len(br.stripes); i++ {
		if br.stripes[i].cursor == 0 {
			continue
		}
		if err := br.stripes[i].Seek(0); err != nil {
			return err
		}
	}
	return nil
}
'''))

r('stripe-seek', (S, '''	var stride uint64
	offset := rowNumber

	// without row index, start from beginning of stripe
	if stripe.ropts.IndexStride > 0 {
		stride = rowNumber / uint64(stripe.ropts.IndexStride)
		offset = rowNumber % uint64(stripe.ropts.IndexStride)
	}

	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
		return err
	}

	if err := stripe.columnReader.Skip(offset); err != nil {
		return err
	}
''', '''	stride, offset := stripe.locate(rowNumber)
	r := stripe.columnReader
	if err := r.SeekStride(stride); err != nil {
		return err
	}
	if err := r.Skip(offset); err != nil {
		return err
	}
'''), (S, None, '''
func (stripe *stripeReader) locate(row uint64) (stride int, offset uint64) {
	if stripe.ropts.IndexStride <= 0 {
		return 0, row
	}
	n := uint64(stripe.ropts.IndexStride)
	return int(row / n), row % n
}
'''))

r('next-inline', (S, '''	page := vec.Cap() - vec.Len()
	if int(stripe.numberOfRows-stripe.cursor) < page {
		page = int(stripe.numberOfRows - stripe.cursor)
	}
	stripe.setVectorSize(page, vec)
''', '''	left := int(stripe.numberOfRows - stripe.cursor)
	page := vec.Cap() - vec.Len()
	if page > left {
		page = left
	}
	stripe.setVectorSize(page, vec)
'''), (RD, '''	for br.stripeIndex < len(br.stripes) {
		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
		if err != nil {
			return stripeEnd, err
		}
		if stripeEnd {
			br.stripeIndex++
			break
		}
		if batch.Len() >= batch.Cap() {
			break
		}
	}
	if br.stripeIndex == len(br.stripes) {
		br.stripeIndex--
	}
	br.cursor += uint64(batch.Len())
	return br.cursor >= br.numberOfRows, nil
''', '''	for {
		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
		if err != nil {
			return stripeEnd, err
		}
		if stripeEnd && br.stripeIndex < len(br.stripes)-1 {
			br.stripeIndex++
		}
		if stripeEnd || batch.Len() >= batch.Cap() {
			break
		}
	}
	br.cursor += uint64(batch.Len())
	end = br.cursor >= br.numberOfRows
	return end, nil
'''))

BE = 'orc/encoding/byte.go'
r('byte-run-helper', (BE, '''	// max len(values) is 128
	for ; ; {
		// find repeats from start, if no repeats index==len(values)
		index := findRepeats(e.values, MinRepeats)
		if index == 0 { //start from repeats, then find how many
			j := MinRepeats
			for ; j < len(e.values); j++ {
				if e.values[j] != e.values[0] {
					break
				}
			}
			index = j
			// write repeats
			out.WriteByte(byte(index - MinRepeats))
			out.WriteByte(e.values[0])
			logger.Tracef("byte encoder encoded %d repeated values", index)
		} else {
			//write direct
			out.WriteByte(byte(-index))
			out.Write(e.values[:index])
			logger.Tracef("byte encoder encoded %d directed values", index)
		}

		e.values = e.values[index:]

		if !toEnd || len(e.values) == 0 {
			break
		}
	}
}
''', '''	e.encodeRun(out)
	for toEnd && len(e.values) > 0 {
		e.encodeRun(out)
	}
}

func (e *byteRunLength) encodeRun(out *bytes.Buffer) {
	n := findRepeats(e.values, MinRepeats)
	if n > 0 {
		out.WriteByte(byte(-n))
		out.Write(e.values[:n])
		e.values = e.values[n:]
		return
	}
	n = MinRepeats
	for n < len(e.values) && e.values[n] == e.values[0] {
		n++
	}
	out.Write([]byte{byte(n - MinRepeats), e.values[0]})
	e.values = e.values[n:]
}
'''))

BO = 'orc/encoding/bool.go'
r('bool-finish-helper', (BO, '''	if e.index >= MaxBoolRunLength-1 { // finish a byte
		if err := e.brl.Encode(e.value, out); err != nil {
			return err
		}
		e.index = -1
		e.value = 0
	}
''', '''	if e.index+1 == MaxBoolRunLength { // a byte is full
		if err := e.finishByte(out); err != nil {
			return err
		}
	}
'''), (BO, '''	if e.index != -1 {
		if err := e.brl.Encode(e.value, out); err != nil {
			return err
		}
	}
	if err := e.brl.Flush(out); err != nil {
		return err
	}
	e.index = -1
	e.value = 0
	if''', '''	if e.index >= 0 {
		if err := e.finishByte(out); err != nil {
			return err
		}
	}
	if err := e.brl.Flush(out); err != nil {
		return err
	}
	if'''), (BO, None, '''
func (e *boolRunLength) finishByte(out *bytes.Buffer) error {
	if err := e.brl.Encode(e.value, out); err != nil {
		return err
	}
	e.index, e.value = -1, 0
	return nil
}
'''), (BO, '''	var r []uint64
	// refactor: operate on byte run length directly
	r = append(r, uint64(e.brl.position))
	r = append(r, uint64(e.position))
	return r
''', '''	return []uint64{uint64(e.brl.position), uint64(e.position)}
'''))

ST = 'orc/column/struct.go'
r('struct-count-helper', (ST, '''	if !w.schema.HasNulls {
		(*w.stats.BucketStatistics).Count[0]++
		*w.stats.NumberOfValues++
		return nil
	}

	if err := w.present.Write(!value.Null); err != nil {
		return err
	}
	if !value.Null {
		(*w.stats.BucketStatistics).Count[0]++
		*w.stats.NumberOfValues++
	}
''', '''	if !w.schema.HasNulls {
		countRow(w.stats)
		return nil
	}

	if err := w.present.Write(!value.Null); err != nil {
		return err
	}
	if !value.Null {
		countRow(w.stats)
	}
'''), (ST, '''		if !value.Null {
			(*w.indexStats.BucketStatistics).Count[0]++
			*w.indexStats.NumberOfValues++
		}
''', '''		if !value.Null {
			countRow(w.indexStats)
		}
'''), (ST, None, '''
func countRow(stats *pb.ColumnStatistics) {
	stats.BucketStatistics.Count[0]++
	*stats.NumberOfValues++
}
'''), (ST, '''		for _, c := range r.children {
			if p {
				if err := c.Skip(1); err != nil {
					return err
				}
			}
		}
''', '''		if !p {
			continue
		}
		for _, c := range r.children {
			if err := c.Skip(1); err != nil {
				return err
			}
		}
'''), (ST, '''		for i := 0; i < len(vec.Vector); i++ {
			p, err := r.present.Next()
			if err != nil {
				return err
			}
			vec.Vector[i].Null = !p
		}
		fillNulls(vec)
''', '''		if err := r.readNulls(vec.Vector); err != nil {
			return err
		}
		fillNulls(vec)
'''), (ST, None, '''
func (r *StructReader) readNulls(values []api.Value) error {
	for i := range values {
		p, err := r.present.Next()
		if err != nil {
			return err
		}
		values[i].Null = !p
	}
	return nil
}
'''))
