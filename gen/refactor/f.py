R = []
def r(id, *edits, **kw):
    R.append(dict(id=id, edits=list(edits), **kw))

D = 'orc/column/decimal.go'
T = 'orc/column/time.go'
L = 'orc/column/list.go'
S = 'orc/column/string.go'
F = 'orc/column/float.go'

r('dec-sum-helper',
 (D, '''		var sum float64
		var err error
		if w.stats.DecimalStatistics.GetSum() != "" {
			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
				return errors.WithStack(err)
			}
		}
		sum += d.Float64()
		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
''', '''		if err := addDecimal(w.stats.DecimalStatistics, d); err != nil {
			return err
		}
'''),
 (D, '''			var indexSum float64
			var err error
			if w.indexStats.DecimalStatistics.GetSum() != "" {
				if indexSum, err = strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64); err != nil {
					return errors.WithStack(err)
				}
			}
			indexSum += d.Float64()
			*w.indexStats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
''', '''			if err := addDecimal(w.indexStats.DecimalStatistics, d); err != nil {
				return err
			}
'''),
 (D, None, '''
func addDecimal(st *pb.DecimalStatistics, d api.Decimal64) error {
	total := 0.0
	if s := st.GetSum(); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return errors.WithStack(err)
		}
		total = f
	}
	*st.Sum = fmt.Sprintf("%f", total+d.Float64())
	return nil
}
'''))

r('dec-positions-helper',
 (D, '''			var pp []uint64
			if w.schema.HasNulls {
				pp = append(pp, w.present.GetPosition()...)
			}
			pp = append(pp, w.data.GetPosition()...)
			pp = append(pp, w.secondary.GetPosition()...)
			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
''', '''			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: w.positions(), Statistics: w.indexStats})
'''),
 (D, None, '''
func (w *decimalV2Writer) positions() []uint64 {
	streams := []stream.Writer{w.data, w.secondary}
	if w.schema.HasNulls {
		streams = append([]stream.Writer{w.present}, streams...)
	}
	var pp []uint64
	for _, s := range streams {
		pp = append(pp, s.GetPosition()...)
	}
	return pp
}
'''))

r('dec-flush-loop',
 (D, '''	if err := w.data.Flush(); err != nil {
		return err
	}
	if err := w.secondary.Flush(); err != nil {
		return err
	}

	*w.stats.BytesOnDisk += w.data.Info().GetLength()
	*w.stats.BytesOnDisk += w.secondary.Info().GetLength()
''', '''	for _, s := range []stream.Writer{w.data, w.secondary} {
		if err := s.Flush(); err != nil {
			return err
		}
		*w.stats.BytesOnDisk += s.Info().GetLength()
	}
'''))

r('dec-flush-all-loop',
 (D, '''	if w.schema.HasNulls {
		if err := w.present.Flush(); err != nil {
			return err
		}
		*w.stats.BytesOnDisk += w.present.Info().GetLength()
	}
	if err := w.data.Flush(); err != nil {
		return err
	}
	if err := w.secondary.Flush(); err != nil {
		return err
	}

	*w.stats.BytesOnDisk += w.data.Info().GetLength()
	*w.stats.BytesOnDisk += w.secondary.Info().GetLength()
''', '''	for _, s := range w.streams() {
		if err := s.Flush(); err != nil {
			return err
		}
		*w.stats.BytesOnDisk += s.Info().GetLength()
	}
'''),
 (D, '''	var np, nd, ns int64
	if w.schema.HasNulls {
		if np, err = w.present.WriteOut(out); err != nil {
			return
		}
	}
	if nd, err = w.data.WriteOut(out); err != nil {
		return
	}
	if ns, err = w.secondary.WriteOut(out); err != nil {
		return
	}
	n = np + nd + ns
	return
''', '''	for _, s := range w.streams() {
		m, err := s.WriteOut(out)
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
'''),
 (D, '''	if w.schema.HasNulls {
		return []*pb.Stream{w.present.Info(), w.data.Info(), w.secondary.Info()}
	}
	return []*pb.Stream{w.data.Info(), w.secondary.Info()}
''', '''	var infos []*pb.Stream
	for _, s := range w.streams() {
		infos = append(infos, s.Info())
	}
	return infos
'''),
 (D, None, '''
// streams are those of the column in the order they are written out
func (w *decimalV2Writer) streams() []stream.Writer {
	var ss []stream.Writer
	if w.schema.HasNulls {
		ss = append(ss, w.present)
	}
	return append(ss, w.data, w.secondary)
}
'''))

r('dec-streaminfos-append',
 (D, '''	if w.schema.HasNulls {
		return []*pb.Stream{w.present.Info(), w.data.Info(), w.secondary.Info()}
	}
	return []*pb.Stream{w.data.Info(), w.secondary.Info()}
''', '''	infos := make([]*pb.Stream, 0, 3)
	if w.schema.HasNulls {
		infos = append(infos, w.present.Info())
	}
	infos = append(infos, w.data.Info())
	infos = append(infos, w.secondary.Info())
	return infos
'''))

r('dec-next-continue',
 (D, '''		if !vec.Vector[i].Null {
			var precision int64
			if precision, err = r.data.NextInt64(); err != nil {
				return err
			}
			var scale int64
			if scale, err = r.secondary.NextInt64(); err != nil {
				return err
			}
			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
		}
''', '''		if vec.Vector[i].Null {
			continue
		}
		d, err := r.value()
		if err != nil {
			return err
		}
		vec.Vector[i].V = d
'''),
 (D, '''		if p {
			if _, err = r.data.NextInt64(); err != nil {
				return err
			}
			if _, err = r.secondary.NextInt64(); err != nil {
				return err
			}
		}
''', '''		if !p {
			continue
		}
		if _, err = r.value(); err != nil {
			return err
		}
'''),
 (D, None, '''
func (r *DecimalV2Reader) value() (d api.Decimal64, err error) {
	if d.Precision, err = r.data.NextInt64(); err != nil {
		return d, err
	}
	scale, err := r.secondary.NextInt64()
	if err != nil {
		return d, err
	}
	d.Scale = int(scale)
	return d, nil
}
'''))

r('dec-skip-down',
 (D, '''	for i := 0; i < int(rows); i++ {
		if r.present != nil {
			if p, err = r.present.Next(); err != nil {
				return err
			}
		}

		if p {
			if _, err = r.data.NextInt64(); err != nil {''', '''	for ; rows > 0; rows-- {
		if r.present != nil {
			if p, err = r.present.Next(); err != nil {
				return err
			}
		}

		if p {
			if _, err = r.data.NextInt64(); err != nil {'''))

r('dec-seek-cursor',
 (D, '''	var dataChunk, dataChunkOffset, dataOffset uint64
	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64

	pos, err := r.getStridePositions(stride)
	if err != nil {
		return err
	}

	if r.present != nil {
		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
		if r.opts.CompressionKind == pb.CompressionKind_NONE {
			pChunkOffset = pos[0]
			pOffset1 = pos[1]
			pOffset2 = pos[2]

			dataChunkOffset = pos[3]
			dataOffset = pos[4]
			secondaryChunkOffset = pos[5]
			secondaryOffset = pos[6]

		} else {
			pChunk = pos[0]
			pChunkOffset = pos[1]
			pOffset1 = pos[2]
			pOffset2 = pos[3]

			dataChunk = pos[4]
			dataChunkOffset = pos[5]
			dataOffset = pos[6]
			secondaryChunk = pos[7]
			secondaryChunkOffset = pos[8]
			secondaryOffset = pos[9]
		}

		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
			return err
		}

	} else {

		if r.opts.CompressionKind == pb.CompressionKind_NONE {
			dataChunkOffset = pos[0]
			dataOffset = pos[1]
			secondaryChunkOffset = pos[2]
			secondaryOffset = pos[3]
		} else {
			dataChunk = pos[0]
			dataChunkOffset = pos[1]
			dataOffset = pos[2]
			secondaryChunk = pos[3]
			secondaryChunkOffset = pos[4]
			secondaryOffset = pos[5]
		}
	}

	if err = r.data.Seek(dataChunk, dataChunkOffset, dataOffset); err != nil {
		return err
	}
	if err = r.secondary.Seek(secondaryChunk, secondaryChunkOffset, secondaryOffset); err != nil {
		return err
	}
	return nil
''', '''	pos, err := r.getStridePositions(stride)
	if err != nil {
		return err
	}
	// chunks are recorded with compression only
	chunk := func() uint64 {
		if r.opts.CompressionKind == pb.CompressionKind_NONE {
			return 0
		}
		c := pos[0]
		pos = pos[1:]
		return c
	}

	if r.present != nil {
		c := chunk()
		if err = r.present.Seek(c, pos[0], pos[1], pos[2]); err != nil {
			return err
		}
		pos = pos[3:]
	}
	c := chunk()
	if err = r.data.Seek(c, pos[0], pos[1]); err != nil {
		return err
	}
	pos = pos[2:]
	c = chunk()
	return r.secondary.Seek(c, pos[0], pos[1])
'''))

r('dec-seek-zero-helper',
 (D, '''	if stride == 0 {
		if r.present != nil {
			if err := r.present.Seek(0, 0, 0, 0); err != nil {
				return err
			}
		}
		if err := r.data.Seek(0, 0, 0); err != nil {
			return err
		}
		if err := r.secondary.Seek(0, 0, 0); err != nil {
			return err
		}
		return nil
	}
''', '''	if stride == 0 {
		return r.rewind()
	}
'''),
 (D, None, '''
func (r *DecimalV2Reader) rewind() error {
	if r.present != nil {
		if err := r.present.Seek(0, 0, 0, 0); err != nil {
			return err
		}
	}
	for _, s := range []interface{ Seek(uint64, uint64, uint64) error }{r.data, r.secondary} {
		if err := s.Seek(0, 0, 0); err != nil {
			return err
		}
	}
	return nil
}
'''))

r('dec-open-helper',
 (D, '''	f, err := r.f.Clone()
	if err != nil {
		return err
	}
	defer func() {
		if err != nil {
			f.Close()
		}
	}()
	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
		return err
	}

	switch info.GetKind() {
	case pb.Stream_PRESENT:
		if !r.schema.HasNulls {
			return errors.New("schema no present stream")
		}
		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
	case pb.Stream_DATA:
		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
	case pb.Stream_SECONDARY:
		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
	default:
		return errors.New("stream kind error")
	}
	return nil
''', '''	f, err := openAt(r.f, startOffset)
	if err != nil {
		return err
	}

	switch kind := info.GetKind(); {
	case kind == pb.Stream_PRESENT && r.schema.HasNulls:
		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
		return nil
	case kind == pb.Stream_DATA:
		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
		return nil
	case kind == pb.Stream_SECONDARY:
		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
		return nil
	case kind == pb.Stream_PRESENT:
		err = errors.New("schema no present stream")
	default:
		err = errors.New("stream kind error")
	}
	f.Close()
	return err
'''),
 (D, None, '''
// openAt is a handle of its own at an offset of the file
func openAt(file orcio.File, offset uint64) (orcio.File, error) {
	f, err := file.Clone()
	if err != nil {
		return nil, err
	}
	if _, err = f.Seek(int64(offset), io.SeekStart); err != nil {
		f.Close()
		return nil, err
	}
	return f, nil
}
'''))

r('dec-close-loop',
 (D, '''	if r.present != nil {
		r.present.Close()
	}
	r.data.Close()
	r.secondary.Close()
''', '''	for _, s := range []interface{ Close() }{r.present, r.data, r.secondary} {
		s.Close() // closing a stream which was not opened does nothing
	}
'''))

r('dec-write-early',
 (D, '''	var s string
	var d api.Decimal64
	if !value.Null {
		d = value.V.(api.Decimal64)
		if err := w.data.Write(d.Precision); err != nil {
			return err
		}
		if err := w.secondary.Write(int64(d.Scale)); err != nil {
			return err
		}
''', '''	var s string
	var d api.Decimal64
	if !value.Null {
		var ok bool
		if d, ok = value.V.(api.Decimal64); !ok {
			return errors.New("decimal column writing, value should be api.Decimal64")
		}
		if err := w.writeValue(d); err != nil {
			return err
		}
'''),
 (D, None, '''
func (w *decimalV2Writer) writeValue(d api.Decimal64) error {
	err := w.data.Write(d.Precision)
	if err == nil {
		err = w.secondary.Write(int64(d.Scale))
	}
	return err
}
'''))

r('dec-index-method',
 (D, '''	if w.opts.WriteIndex {
		w.indexInRows++

		if w.indexInRows >= w.opts.IndexStride {
			var pp []uint64
			if w.schema.HasNulls {
				pp = append(pp, w.present.GetPosition()...)
			}
			pp = append(pp, w.data.GetPosition()...)
			pp = append(pp, w.secondary.GetPosition()...)
			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})

			w.indexStats = &pb.ColumnStatistics{
				DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
				NumberOfValues:    new(uint64), HasNull: new(bool)}
			if w.schema.HasNulls {
				*w.indexStats.HasNull = true
			}
			w.indexInRows = 0
		}

		if !value.Null {
''', '''	if w.opts.WriteIndex {
		w.endOfStride()

		if !value.Null {
'''),
 (D, None, '''
func (w *decimalV2Writer) endOfStride() {
	w.indexInRows++
	if w.indexInRows < w.opts.IndexStride {
		return
	}
	w.indexInRows = 0

	var pp []uint64
	if w.schema.HasNulls {
		pp = w.present.GetPosition()
	}
	pp = append(pp, w.data.GetPosition()...)
	pp = append(pp, w.secondary.GetPosition()...)
	entry := &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats}
	w.index.Entry = append(w.index.Entry, entry)

	hasNull := w.schema.HasNulls
	w.indexStats = &pb.ColumnStatistics{
		DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
		NumberOfValues:    new(uint64), HasNull: &hasNull}
}
'''))

TSTAT = '''		if *w.stats.NumberOfValues == 0 || ms < w.stats.TimestampStatistics.GetMinimum() {
			*w.stats.TimestampStatistics.Minimum = ms
		}
		if *w.stats.NumberOfValues == 0 || ms > w.stats.TimestampStatistics.GetMaximum() {
			*w.stats.TimestampStatistics.Maximum = ms
		}
		msUtc = t.GetMilliSecondsUtc()
		if *w.stats.NumberOfValues == 0 || msUtc < w.stats.TimestampStatistics.GetMinimumUtc() {
			*w.stats.TimestampStatistics.MinimumUtc = msUtc
		}
		if *w.stats.NumberOfValues == 0 || msUtc > w.stats.TimestampStatistics.GetMaximumUtc() {
			*w.stats.TimestampStatistics.MaximumUtc = msUtc
		}
		*w.stats.NumberOfValues++
'''
r('ts-stats-helper',
 (T, TSTAT, '''		msUtc = t.GetMilliSecondsUtc()
		updateTimestampStats(w.stats, ms, msUtc)
'''),
 (T, '''			if *w.indexStats.NumberOfValues == 0 || ms > w.indexStats.TimestampStatistics.GetMaximum() {
				*w.indexStats.TimestampStatistics.Maximum = ms
			}
			if *w.indexStats.NumberOfValues == 0 || ms < w.indexStats.TimestampStatistics.GetMinimum() {
				*w.indexStats.TimestampStatistics.Minimum = ms
			}
			if *w.indexStats.NumberOfValues == 0 || msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
			}
			if *w.indexStats.NumberOfValues == 0 || msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
				*w.indexStats.TimestampStatistics.MinimumUtc = msUtc
			}

			*w.indexStats.NumberOfValues++
''', '''			updateTimestampStats(w.indexStats, ms, msUtc)
'''),
 (T, None, '''
func updateTimestampStats(stats *pb.ColumnStatistics, ms, msUtc int64) {
	ts := stats.TimestampStatistics
	if stats.GetNumberOfValues() == 0 {
		*ts.Minimum, *ts.Maximum = ms, ms
		*ts.MinimumUtc, *ts.MaximumUtc = msUtc, msUtc
	} else {
		*ts.Minimum = least(*ts.Minimum, ms)
		*ts.Maximum = greatest(*ts.Maximum, ms)
		*ts.MinimumUtc = least(*ts.MinimumUtc, msUtc)
		*ts.MaximumUtc = greatest(*ts.MaximumUtc, msUtc)
	}
	*stats.NumberOfValues++
}

func least(a, b int64) int64 {
	if b < a {
		return b
	}
	return a
}

func greatest(a, b int64) int64 {
	if b > a {
		return b
	}
	return a
}
'''))

r('ts-stats-first',
 (T, TSTAT, '''		msUtc = t.GetMilliSecondsUtc()
		first := w.stats.GetNumberOfValues() == 0
		if ts := w.stats.GetTimestampStatistics(); first {
			*ts.Minimum = ms
			*ts.Maximum = ms
			*ts.MinimumUtc = msUtc
			*ts.MaximumUtc = msUtc
		} else {
			if ms < *ts.Minimum {
				*ts.Minimum = ms
			} else if ms > *ts.Maximum {
				*ts.Maximum = ms
			}
			switch {
			case msUtc < *ts.MinimumUtc:
				*ts.MinimumUtc = msUtc
			case msUtc > *ts.MaximumUtc:
				*ts.MaximumUtc = msUtc
			}
		}
		*w.stats.NumberOfValues += 1
'''))

r('ts-stats-newptr',
 (T, '''		if *w.stats.NumberOfValues == 0 || ms < w.stats.TimestampStatistics.GetMinimum() {
			*w.stats.TimestampStatistics.Minimum = ms
		}
''', '''		if *w.stats.NumberOfValues == 0 || ms < w.stats.TimestampStatistics.GetMinimum() {
			m := ms
			w.stats.TimestampStatistics.Minimum = &m
		}
'''))

r('date-seek-base',
 (T, '''	var dataChunk, dataChunkOffset, dataOffset uint64
	if r.opts.CompressionKind == pb.CompressionKind_NONE {
		if r.present != nil {
			dataChunkOffset = pos[3]
			dataOffset = pos[4]
		} else {
			dataChunkOffset = pos[0]
			dataOffset = pos[1]
		}
	} else {
		if r.present != nil {
			dataChunk = pos[4]
			dataChunkOffset = pos[5]
			dataOffset = pos[6]
		} else {
			dataChunk = pos[0]
			dataChunkOffset = pos[1]
			dataOffset = pos[2]
		}
	}

	return r.data.Seek(dataChunk, dataChunkOffset, dataOffset)
''', '''	k := 0
	if r.present != nil {
		k = 3
	}
	if r.opts.CompressionKind == pb.CompressionKind_NONE {
		return r.data.Seek(0, pos[k], pos[k+1])
	}
	if r.present != nil {
		k++
	}
	return r.data.Seek(pos[k], pos[k+1], pos[k+2])
'''))

r('date-init-switch',
 (T, '''	if info.GetKind() == pb.Stream_PRESENT {
		if !r.schema.HasNulls {
			return errors.New("schema has no nulls")
		}
		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
		return nil
	}
	if info.GetKind() == pb.Stream_DATA {
		r.data = stream.NewDateV2Reader(r.opts, info, startOffset, f)
		return err
	}
	return errors.New("stream kind unknown")
''', '''	switch info.GetKind() {
	case pb.Stream_DATA:
		r.data = stream.NewDateV2Reader(r.opts, info, startOffset, f)
	case pb.Stream_PRESENT:
		if r.schema.HasNulls {
			r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
			break
		}
		err = errors.New("schema has no nulls")
	default:
		err = errors.New("stream kind unknown")
	}
	return err
'''))

r('list-next-helper',
 (L, '''			l, err := r.length.NextUInt64()
			if err != nil {
				return err
			}
			if err = r.child.Skip(l); err != nil {
				return err
			}
''', '''			if err = r.skipElements(); err != nil {
				return err
			}
'''),
 (L, None, '''
func (r *ListV2Reader) skipElements() error {
	n, err := r.length.NextUInt64()
	if err == nil {
		err = r.child.Skip(n)
	}
	return err
}
'''))

r('list-skip-sum',
 (L, '''		if p {
			l, err := r.length.NextUInt64()
			if err != nil {
				return err
			}
			if err = r.child.Skip(l); err != nil {
				return err
			}
		}
	}
	return nil
''', '''		if p {
			l, err := r.length.NextUInt64()
			if err != nil {
				return err
			}
			elements += l
		}
	}
	return r.child.Skip(elements)
'''),
 (L, '''func (r *ListV2Reader) Skip(rows uint64) error {
''', '''func (r *ListV2Reader) Skip(rows uint64) error {
	var elements uint64
'''))

r('dict-load-helper',
 (S, '''	if !r.dictLoaded {
		for ; !r.length.Finished(); {
			var l uint64
			if l, err = r.length.NextUInt64(); err != nil {
				return err
			}
			var s string
			if s, err = r.dict.NextString(l); err != nil {
				return err
			}
			r.dictStrings = append(r.dictStrings, s)
		}
		r.dictLoaded = true
	}
''', '''	if err = r.loadDictionary(); err != nil {
		return err
	}
'''),
 (S, None, '''
func (r *StringDictionaryV2Reader) loadDictionary() error {
	if r.dictLoaded {
		return nil
	}
	for !r.length.Finished() {
		l, err := r.length.NextUInt64()
		if err != nil {
			return err
		}
		s, err := r.dict.NextString(l)
		if err != nil {
			return err
		}
		r.dictStrings = append(r.dictStrings, s)
	}
	r.dictLoaded = true
	return nil
}
'''))

r('dict-load-local',
 (S, '''		for ; !r.length.Finished(); {
			var l uint64
			if l, err = r.length.NextUInt64(); err != nil {
				return err
			}
			var s string
			if s, err = r.dict.NextString(l); err != nil {
				return err
			}
			r.dictStrings = append(r.dictStrings, s)
		}
		r.dictLoaded = true
''', '''		var words []string
		for {
			if r.length.Finished() {
				break
			}
			var l uint64
			if l, err = r.length.NextUInt64(); err != nil {
				return err
			}
			var s string
			if s, err = r.dict.NextString(l); err != nil {
				return err
			}
			words = append(words, s)
		}
		r.dictStrings, r.dictLoaded = words, true
'''))

r('dict-index-checked',
 (S, '''			vec.Vector[i].V = r.dictStrings[data]
''', '''			if data >= uint64(len(r.dictStrings)) {
				return errors.New("string not in dictionary")
			}
			vec.Vector[i].V = r.dictStrings[data]
'''))

I = 'orc/stream/int.go'
r('int-fill',
 (I, '''	if r.pos >= len(r.values) {
		r.pos = 0
		if r.values, err = r.decoder.DecodeInt(r.stream); err != nil {
			return 0, err
		}
		logger.Tracef("stream long read column %d has read %d values", r.stream.info.GetColumn(), len(r.values))
	}
	v = r.values[r.pos]
	r.pos++
	return v, nil
''', '''	if r.pos == len(r.values) {
		if err := r.fill(); err != nil {
			return 0, err
		}
	}
	p := r.pos
	r.pos = p + 1
	return r.values[p], nil
'''),
 (I, None, '''
func (r *IntRLV2Reader) fill() (err error) {
	r.pos = 0
	r.values, err = r.decoder.DecodeInt(r.stream)
	return err
}
'''))

r('int-seek-forget',
 (I, '''	r.pos = 0
	if r.signed {
		r.values = r.values[:0]
	} else {
		r.uvalues = r.uvalues[:0]
	}
	for i := 0; i < int(pos); i++ {
		if r.signed {
			if _, err := r.NextInt64(); err != nil {
				return err
			}
		} else {
			if _, err := r.NextUInt64(); err != nil {
				return err
			}
		}
	}
	return nil
''', '''	r.values, r.uvalues, r.pos = nil, nil, 0
	next := func() error { _, err := r.NextUInt64(); return err }
	if r.signed {
		next = func() error { _, err := r.NextInt64(); return err }
	}
	for ; pos > 0; pos-- {
		if err := next(); err != nil {
			return err
		}
	}
	return nil
'''))

IO = 'orc/io/file.go'
r('file-clone-open',
 (IO, '''	r, err := os.Open(f.path)
	if err != nil {
		return nil, err
	}
	return &osFile{f.path, r}, nil
''', '''	return OpenFileForRead(f.path)
'''))
r('file-open-flags',
 (IO, '''	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	return &osFile{f: f, path: path}, nil
''', '''	f, err := os.OpenFile(path, os.O_RDONLY, 0)
	if err != nil {
		return nil, errors.WithStack(err)
	}
	return &osFile{path, f}, nil
'''),
 (IO, '''	f, err := os.Create(path)
''', '''	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
'''))
