COMMON='''
func handles() int {
	fs, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(fs)
}

func openAll(t *testing.T, cols []col, rows, stripe int, use func(br orc.BatchReader, s *api.TypeDescription, data [][]api.Value), ids ...uint32) {
	quiet()
	s := schemaOf(cols...)
	path := scratch(t)
	data := dataOf(rows, cols...)
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, stripe), data, 100)
	before := handles()
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 50, Includes: ids})
		if err != nil {
			t.Fatal(err)
		}
		if use != nil {
			use(br, s, data)
		}
		br.Close()
		if n := handles(); n != before+1 {
			t.Fatalf("%d handles left open by a batch reader", n-before-1)
		}
	}
	r.Close()
	if n := handles(); n != before {
		t.Fatalf("%d handles left open", n-before)
	}
}
'''
#=====
id='c09-timestamp-secondary'
prop='C09'
pkg='orc'
edits=[('orc/column/time.go','''		r.present.Close()
	}
	r.data.Close()
	r.secondary.Close()
''','''		r.present.Close()
		r.secondary.Close()
	}
	r.data.Close()
''')]
needs='a timestamp column without nulls'
breaks='the nanosecond stream of a timestamp column without nulls stays open'
body=COMMON+'''
func TestDemo(t *testing.T) {
	openAll(t, []col{{pb.Type_TIMESTAMP, v2, true}}, 300, 100000, nil)
	openAll(t, []col{{pb.Type_TIMESTAMP, v2, false}}, 300, 100000, nil)
}
'''
#=====
id='c09-stripes-read'
prop='C09'
pkg='orc'
edits=[('orc/reader.go','''	for _, s := range br.stripes {
		s.Close()
	}''','''	for _, s := range br.stripes[br.stripeIndex:] {
		s.Close()
	}''')]
needs='a file of several stripes, closed after some have been read'
breaks='handles of stripes already read stay open'
body=COMMON+'''
func TestDemo(t *testing.T) {
	openAll(t, []col{{pb.Type_DOUBLE, direct, false}}, 3000, 4000, nil)
	openAll(t, []col{{pb.Type_DOUBLE, direct, false}}, 3000, 4000, func(br orc.BatchReader, s *api.TypeDescription, data [][]api.Value) {
		readOn(t, br, s, data, 0, batchOf(s, 100))
	})
}
'''
#=====
id='c09-batch-closes-file'
prop='C09'
pkg='orc'
edits=[('orc/stripe.go','''func (stripe *stripeReader) Close() {
	stripe.columnReader.Close()
''','''func (stripe *stripeReader) Close() {
	stripe.columnReader.Close()
	stripe.f.Close()
''')]
needs='a second batch reader made after closing the first'
breaks='closing a batch reader closes the file under its reader'
body=COMMON+'''
func TestDemo(t *testing.T) {
	openAll(t, []col{{pb.Type_LONG, v2, false}}, 300, 100000, nil)
}
'''
#=====
id='c09-single-row-stripe'
prop='C09'
pkg='orc'
edits=[('orc/reader.go','''		br.stripes = append(br.stripes, sr)
	}
	return nil
''','''		if i == 0 || stripeInfo.GetNumberOfRows() > 1 {
			br.stripes = append(br.stripes, sr)
		}
	}
	return nil
''')]
needs='a stripe of a single row which is not the first'
breaks='handles of a last stripe of one row are never closed'
body=COMMON+'''
func TestDemo(t *testing.T) {
	openAll(t, []col{{pb.Type_DOUBLE, direct, false}}, 1001, 8000, nil)
}
'''
#=====
id='c09-create-failure'
prop='C09'
pkg='orc'
edits=[('orc/io/file.go','''func (f *osFile) Clone() (File, error) {
	r, err := os.Open(f.path)
	if err != nil {
		return nil, err
	}
	return &osFile{f.path, r}, nil
}''','''func (f *osFile) Clone() (File, error) {
	r, err := os.Open(f.path)
	if err != nil {
		return nil, err
	}
	if fi, err := r.Stat(); err != nil || fi.Size() == 0 {
		return nil, errors.New("file is empty")
	}
	return &osFile{f.path, r}, nil
}''')]
needs='a file emptied after it was opened'
breaks='a handle stays open when cloning fails'
body=COMMON+'''
func TestDemo(t *testing.T) {
	quiet()
	path := scratch(t)
	c := col{pb.Type_LONG, v2, false}
	s := schemaOf(c)
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, 100000), dataOf(100, c), 100)
	f, err := orcio.OpenFileForRead(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := os.Truncate(path, 0); err != nil {
		t.Fatal(err)
	}
	before := handles()
	c2, err := f.Clone()
	if err == nil {
		c2.Close()
	}
	if n := handles(); n != before {
		t.Fatalf("%d handles left open", n-before)
	}
}
'''
