id='c17-binary-dictionary'
prop='C17'
pkg='orc/column'
edits=[('orc/column/package.go','''			return nil, errors.New("not impl")
		}
		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
			return NewBinaryV2Reader(opts, schema, in), nil
		}
		return nil, errors.New("binary column encoding error")
''','''			return nil, errors.New("not impl")
		}
		return NewBinaryV2Reader(opts, schema, in), nil
''')]
needs='a file with a binary column of dictionary encoding'
breaks='dictionary encoded binary columns are read as if they were direct'
body='''
func TestDemo(t *testing.T) {
	for _, e := range []pb.ColumnEncoding_Kind{pb.ColumnEncoding_DIRECT, pb.ColumnEncoding_DICTIONARY, pb.ColumnEncoding_DICTIONARY_V2} {
		r, err := column.NewReader(schemaOf(pb.Type_BINARY, e, false), &config.ReaderOptions{}, orcio.NewMockFile(make([]byte, 10)))
		if err == nil {
			t.Fatal(e, r)
		}
	}
}
'''
#=====
id='c17-union-nil'
prop='C17'
pkg='orc/column'
edits=[('orc/column/package.go','''		//todo:
		return nil, errors.New("not impl")

	default:
		return nil, errors.New("type unknown")''','''		//todo:

	default:
		return nil, errors.New("type unknown")''')]
needs='a file with a union column'
breaks='asking for the reader of a union column gives no reader and no error'
body='''
func TestDemo(t *testing.T) {
	r, err := column.NewReader(schemaOf(pb.Type_UNION, pb.ColumnEncoding_DIRECT, false), &config.ReaderOptions{}, orcio.NewMockFile(make([]byte, 10)))
	if err == nil {
		t.Fatal(r)
	}
}
'''
#=====
id='c17-footer-compression'
prop='C17'
pkg='orc'
edits=[('orc/common/misc.go','''	switch kind {
	case pb.CompressionKind_ZLIB:
		for src.Len() > 0 {''','''	switch kind {
	case pb.CompressionKind_ZLIB, pb.CompressionKind_LZO:
		for src.Len() > 0 {''')]
needs='an LZO compressed file whose chunks are stored as is'
breaks='LZO compressed directories are taken to be zlib compressed'
body='''
func TestDemo(t *testing.T) {
	for k := range pb.CompressionKind_name {
		kind := pb.CompressionKind(k)
		var out bytes.Buffer
		err := common.DecompressChunks(kind, &out, bytes.NewBuffer([]byte{3<<1 | 1, 0, 0, 1, 2, 3}))
		if (err == nil) != (kind == pb.CompressionKind_ZLIB) {
			t.Fatal(kind, err)
		}
	}
}
'''
#=====
id='c17-decimal-stream-kind'
prop='C17'
pkg='orc/column'
edits=[('orc/column/decimal.go','''		return errors.New("stream kind error")
''','''		if info.GetLength() > 0 {
			return errors.New("stream kind error")
		}
''')]
needs='a decimal column with a stream of a kind the reader does not know'
breaks='streams of unknown kind of decimal columns are dropped silently when empty'
body='''
func TestDemo(t *testing.T) {
	for k := range pb.Stream_Kind_name {
		kind := pb.Stream_Kind(k)
		r, err := column.NewReader(schemaOf(pb.Type_DECIMAL, v2, true), &config.ReaderOptions{ChunkSize: 100}, orcio.NewMockFile(make([]byte, 10)))
		if err != nil {
			t.Fatal(err)
		}
		id, l := uint32(1), uint64(0)
		err = r.InitStream(&pb.Stream{Kind: &kind, Column: &id, Length: &l}, 2)
		if (err == nil) != (kind == pb.Stream_PRESENT || kind == pb.Stream_DATA || kind == pb.Stream_SECONDARY) {
			t.Fatal(kind, err)
		}
	}
}
'''
#=====
id='c17-stride-missing'
prop='C17'
pkg='orc/column'
edits=[('orc/column/reader.go','''	if stride > len(r.index.Entry) {
		err = errors.Errorf("stride %d does not exist", stride)
		return
	}
	pos = r.index.Entry[stride-1].Positions
	return
''','''	if stride > len(r.index.Entry) {
		stride = len(r.index.Entry)
	}
	pos = r.index.Entry[stride-1].Positions
	return
''')]
needs='seeking to a stride beyond those recorded'
breaks='a stride which is not there is taken for the last one'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_LONG, v2, false)
	p := writerOf(t, s, options(pb.CompressionKind_ZLIB, 1000, 100))
	p.write(t, dataOf(s, 550))
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	for i := 0; i <= 5; i++ {
		if err := r.SeekStride(i); err != nil {
			t.Fatal(err)
		}
	}
	if err := r.SeekStride(8); err == nil {
		t.Fatal("no error for a stride which does not exist")
	}
}
'''
#=====
id='c17-child-of-primitive'
prop='C17'
pkg='orc'
edits=[('orc/stripe.go','''				case pb.Type_UNION:
					return errors.New("not impl")
				default:
					return errors.New("should have no child")
				}''','''				case pb.Type_UNION:
					return errors.New("not impl")
				}''')]
needs='a file whose footer gives a string column a child'
breaks='children of columns which have none are read and lost without an error'
body='''
func TestDemo(t *testing.T) {
	quiet()
	path := scratch(t)
	s := schemaOf(col{pb.Type_LONG, v2, false}, col{pb.Type_LONG, v2, false})
	data := dataOf(100, col{pb.Type_LONG, v2, false}, col{pb.Type_LONG, v2, false})
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 100000), data, 50)
	readFile(t, path, s, data, 30)
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// take the footer apart and hang the second column below the first
	psl := int(b[len(b)-1])
	ps := &pb.PostScript{}
	if err := proto.Unmarshal(b[len(b)-1-psl:len(b)-1], ps); err != nil {
		t.Fatal(err)
	}
	at := len(b) - 1 - psl - int(ps.GetFooterLength())
	ft := &pb.Footer{}
	if err := proto.Unmarshal(b[at:len(b)-1-psl], ft); err != nil {
		t.Fatal(err)
	}
	ft.Types[0].Subtypes = ft.Types[0].Subtypes[:1]
	ft.Types[0].FieldNames = ft.Types[0].FieldNames[:1]
	ft.Types[1].Subtypes = []uint32{2}
	fb, err := proto.Marshal(ft)
	if err != nil {
		t.Fatal(err)
	}
	l := uint64(len(fb))
	ps.FooterLength = &l
	pb2, err := proto.Marshal(ps)
	if err != nil {
		t.Fatal(err)
	}
	b = append(append(append(b[:at], fb...), pb2...), byte(len(pb2)))
	if err := ioutil.WriteFile(path, b, 0600); err != nil {
		t.Fatal(err)
	}
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		return
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 10})
	if err == nil {
		br.Close()
		t.Fatal("a long column with a child is accepted")
	}
}
'''
