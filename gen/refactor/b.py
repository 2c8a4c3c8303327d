R = []
def r(id, *edits, all=False):
    R.append(dict(id=id, edits=edits, all=all))
S = 'orc/stripe.go'
RD = 'orc/reader.go'
V = 'orc/api/vector.go'

r('next-no-loop', (RD, '''	for br.stripeIndex < len(br.stripes) {
		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
		if err != nil {
			return stripeEnd, err
		}
		if stripeEnd {
			br.stripeIndex++
			break
		}
		if batch.Len() >= batch.Cap() {
			break
		}
	}
	if br.stripeIndex == len(br.stripes) {
		br.stripeIndex--
	}
	br.cursor += uint64(batch.Len())
	return br.cursor >= br.numberOfRows, nil
''', '''	sr := br.stripes[br.stripeIndex]
	stripeEnd, err := sr.next(batch)
	if err != nil {
		return false, err
	}
	if stripeEnd && br.stripeIndex+1 < len(br.stripes) {
		br.stripeIndex++
	}
	br.cursor = br.cursor + uint64(batch.Len())
	if br.cursor < br.numberOfRows {
		return false, nil
	}
	return true, nil
'''))

r('next-rename', (S, 'setVectorSize', 'resize'), (S, 'prepareVector', 'makeRoom'), all=True)

r('prepare-inline', (S, '''	stripe.prepareVector(vec)

	if err = ''', '''	rest := stripe.numberOfRows - stripe.cursor
	page := vec.Cap() - vec.Len()
	if rest < uint64(page) {
		page = int(rest)
	}
	stripe.setVectorSize(page, vec)

	if err = '''), (S, '''func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) {
	page := vec.Cap() - vec.Len()
	if int(stripe.numberOfRows-stripe.cursor) < page {
		page = int(stripe.numberOfRows - stripe.cursor)
	}
	stripe.setVectorSize(page, vec)
}

''', ''))

r('next-end-branch', (S, '''	stripe.cursor += uint64(vec.Len())
	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
	end = stripe.cursor >= stripe.numberOfRows
	return
''', '''	n := uint64(vec.Len())
	stripe.cursor = stripe.cursor + n
	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
	if stripe.cursor < stripe.numberOfRows {
		return false, nil
	}
	return true, nil
'''))

r('size-ifs', (S, '''	switch vec.Kind {
	case pb.Type_STRUCT:
		if stripe.schemas[vec.Id].HasNulls {
			vec.Vector = vec.Vector[:size]
		}
		for _, c := range vec.Children {
			stripe.setVectorSize(size, c)
		}

	case pb.Type_LIST:
		vec.Vector = vec.Vector[:size]
		// list's children maybe struct
		vec.Children[0].Vector = vec.Children[0].Vector[:0]

	case pb.Type_MAP:
		vec.Vector = vec.Vector[:size]
		// toClarify: will map's children be struct or just primary?
		vec.Children[0].Vector = vec.Children[0].Vector[:0]
		vec.Children[1].Vector = vec.Children[1].Vector[:0]

	case pb.Type_UNION:
		panic("not impl")
	default:
		vec.Vector = vec.Vector[:size]
	}

	// nulls of last batch should not be seen, maybe no present stream in this stripe
	for i := range vec.Vector {
		vec.Vector[i].Null = false
	}
}
''', '''	if vec.Kind == pb.Type_UNION {
		panic("not impl")
	}
	if vec.Kind != pb.Type_STRUCT || stripe.schemas[vec.Id].HasNulls {
		vec.Vector = vec.Vector[:size]
	}
	if vec.Kind == pb.Type_STRUCT {
		for i := 0; i < len(vec.Children); i++ {
			stripe.setVectorSize(size, vec.Children[i])
		}
	} else if vec.Kind == pb.Type_LIST || vec.Kind == pb.Type_MAP {
		for _, c := range vec.Children {
			c.Vector = c.Vector[:0]
		}
	}
	resetNulls(vec.Vector)
}

// nulls of last batch should not be seen, maybe no present stream in this stripe
func resetNulls(values []api.Value) {
	for i := 0; i < len(values); i++ {
		values[i].Null = false
	}
}
'''))

r('size-nulls-if', (S, '''	for i := range vec.Vector {
		vec.Vector[i].Null = false
	}
''', '''	for i := range vec.Vector {
		if vec.Vector[i].Null {
			vec.Vector[i].Null = false
		}
	}
'''))

r('clear-range', (V, '''	cv.Vector = cv.Vector[:0]
	for i := 0; i < len(cv.Children); i++ {
		cv.Children[i].Clear()
	}
''', '''	for _, c := range cv.Children {
		c.Clear()
	}
	if cv.Vector != nil {
		cv.Vector = cv.Vector[:0]
	}
'''))

r('len-first', (V, '''	if len(cv.Vector) != 0 {
		return len(cv.Vector)
	}
	for _, c := range cv.Children {
		if len(c.Vector) != 0 {
			return len(c.Vector)
		}
		return c.Len()
	}
	return 0
}

func (cv ColumnVector) Cap() int {
	if cv.Vector != nil {
		return cap(cv.Vector)
	} else {
		for _, c := range cv.Children {
			return c.Cap()
		}
	}
	return 0
}
''', '''	if n := len(cv.Vector); n > 0 || len(cv.Children) == 0 {
		return n
	}
	return cv.Children[0].Len()
}

func (cv ColumnVector) Cap() int {
	if cv.Vector == nil && len(cv.Children) > 0 {
		return cv.Children[0].Cap()
	}
	return cap(cv.Vector)
}
'''))

r('batch-seek-late', (RD, '''			// stripes after may have been read
			for _, s := range br.stripes[i+1:] {
				if s.cursor != 0 {
					if err := s.Seek(0); err != nil {
						return err
					}
				}
			}
			br.stripeIndex = i
			br.cursor = rowNumber
			return nil
''', '''			br.stripeIndex, br.cursor = i, rowNumber
			return br.restart(i + 1)
'''), (RD, '''func (br *batchReader) Seek(''', '''// restart has stripes read from their start again
func (br *batchReader) restart(from int) error {
	for i := from; i < len(br.stripes); i++ {
		s := br.stripes[i]
		if s.cursor == 0 {
			continue
		}
		if err := s.Seek(0); err != nil {
			return err
		}
	}
	return nil
}

func (br *batchReader) Seek('''))

r('batch-seek-all', (RD, '''			for _, s := range br.stripes[i+1:] {
				if s.cursor != 0 {
					if err := s.Seek(0); err != nil {
						return err
					}
				}
			}
''', '''			for j, s := range br.stripes {
				if j > i {
					if err := s.Seek(0); err != nil {
						return err
					}
				}
			}
'''))

r('batch-seek-refuse', (RD, '''	if rowNumber > br.numberOfRows {
		return errors.New("row number larger than number of rows")
	}
	var rows uint64
''', '''	if rowNumber >= br.numberOfRows {
		return errors.Errorf("no row %d, number of rows is %d", rowNumber, br.numberOfRows)
	}
	rows := uint64(0)
'''))

r('stripe-seek-div', (S, '''	var stride uint64
	offset := rowNumber

	// without row index, start from beginning of stripe
	if stripe.ropts.IndexStride > 0 {
		stride = rowNumber / uint64(stripe.ropts.IndexStride)
		offset = rowNumber % uint64(stripe.ropts.IndexStride)
	}

	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
		return err
	}

	if err := stripe.columnReader.Skip(offset); err != nil {
		return err
	}
''', '''	stride, offset := stripe.locate(rowNumber)
	if err := stripe.columnReader.SeekStride(stride); err != nil {
		return err
	}
	if offset > 0 {
		if err := stripe.columnReader.Skip(offset); err != nil {
			return err
		}
	}
'''), (S, '''func (stripe *stripeReader) Close() {''', '''// locate finds the stride of a row and its place there
func (stripe *stripeReader) locate(rowNumber uint64) (stride int, offset uint64) {
	n := uint64(stripe.ropts.IndexStride)
	if stripe.ropts.IndexStride <= 0 {
		return 0, rowNumber
	}
	s := rowNumber / n
	return int(s), rowNumber - s*n
}

func (stripe *stripeReader) Close() {'''))

r('init-stripes-sized', (RD, '''	for i, stripeInfo := range infos {
		if stripeInfo.GetNumberOfRows() == 0 {
			return errors.Errorf("stripe number of rows 0 err, %s", stripeInfo.String())
		}
		sr, err := newStripeReader(br.f, br.schemas, br.ropts, br.bopt, i, stripeInfo)
		if err != nil {
			return err
		}
		br.stripes = append(br.stripes, sr)
	}
	return nil
''', '''	var srs []*stripeReader
	defer func() { br.stripes = srs }()
	for i := 0; i < len(infos); i++ {
		info := infos[i]
		if info.GetNumberOfRows() == 0 {
			return errors.Errorf("stripe number of rows 0 err, %s", info.String())
		}
		sr, err := newStripeReader(br.f, br.schemas, br.ropts, br.bopt, i, info)
		if err != nil {
			return err
		}
		srs = append(srs, sr)
	}
	return nil
'''))
