id='c04-end-of-stripe-before'
prop='C04'
pkg='orc'
edits=[('orc/reader.go','''		if rows+br.stripes[i].numberOfRows > rowNumber {
''','''		if rows+br.stripes[i].numberOfRows >= rowNumber {
''')]
needs='seeking to the number of rows'
breaks='the row behind the last is not refused'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(500, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000), data, 500)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 100})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	if err := br.Seek(499); err != nil {
		t.Fatal(err)
	}
	readOn(t, br, s, data, 499, batchOf(s, 100))
	if err := br.Seek(500); err == nil {
		t.Fatal("sought to row 500 of 500")
	}
}
'''
#=====
id='c04-rows-of-stripe-before-only'
prop='C04'
pkg='orc'
edits=[('orc/reader.go','''		rows += br.stripes[i].numberOfRows
''','''		rows = br.stripes[i].numberOfRows
''')]
needs='seeking into the third stripe or a later one'
breaks='the row is not found, or another one is sought'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(1000, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000), data, 500)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 100})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	for _, at := range []int{130, 10, 270, 999} {
		if err := br.Seek(uint64(at)); err != nil {
			t.Fatal(err)
		}
		readOn(t, br, s, data, at, batchOf(s, 100))
	}
}
'''
#=====
id='c04-double-read-ahead'
prop='C04'
pkg='orc'
edits=[('orc/column/float.go','''				if vec.Vector[i].V, err = r.data.NextDouble(); err != nil {
''','''				if vec.Vector[i].V, err = r.nextDouble(); err != nil {
'''),('orc/column/float.go','''				if _, err = r.data.NextDouble(); err != nil {
''','''				if _, err = r.nextDouble(); err != nil {
'''),('orc/column/float.go','''	is64    bool
}

func (r *FloatReader) InitStream(''','''	is64    bool

	ahead []float64
}

// nextDouble decodes a few values at once
func (r *FloatReader) nextDouble() (float64, error) {
	if len(r.ahead) == 0 {
		for len(r.ahead) < 32 && !(len(r.ahead) > 0 && r.data.Finished()) {
			v, err := r.data.NextDouble()
			if err != nil {
				return 0, err
			}
			r.ahead = append(r.ahead, v)
		}
	}
	v := r.ahead[0]
	r.ahead = r.ahead[1:]
	return v, nil
}

func (r *FloatReader) InitStream('''),]
needs='seeking after a part of the values decoded ahead was read'
breaks='values decoded before the seek are delivered after it'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(1000, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 100000), data, 500)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 100})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	v := batchOf(s, 100)
	if _, err := br.Next(v); err != nil {
		t.Fatal(err)
	}
	for _, at := range []int{700, 10} {
		if err := br.Seek(uint64(at)); err != nil {
			t.Fatal(err)
		}
		readOn(t, br, s, data, at, v)
	}
}
'''
