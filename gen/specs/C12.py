id='c12-not-cleared-after-end'
prop='C12'
pkg='orc'
edits=[('orc/reader.go','''	batch.Clear()

	if br.cursor >= br.numberOfRows {
		return true, nil
	}
''','''	if br.cursor >= br.numberOfRows {
		return true, nil
	}

	batch.Clear()
''')]
needs='asking for a batch after the end was reported'
breaks='the last batch is delivered once more'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(250, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000), data, 250)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 100})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	v := batchOf(s, 100)
	readOn(t, br, s, data, 0, v)
	end, err := br.Next(v)
	if err != nil || !end {
		t.Fatal(end, err)
	}
	if v.Len() != 0 {
		t.Fatalf("%d rows after the end", v.Len())
	}
}
'''
#=====
id='c12-page-from-remainder'
prop='C12'
pkg='orc'
edits=[('orc/stripe.go','''		page = int(stripe.numberOfRows - stripe.cursor)
''','''		page = int(stripe.numberOfRows % uint64(page))
''')]
needs='the last batch of a stripe after a seek to a row which is no multiple of the batch size'
breaks='more rows than are left are asked for, or rows are left out'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(1000, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 100000), data, 1000)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 300})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	v := batchOf(s, 300)
	readOn(t, br, s, data, 0, v)
	if err := br.Seek(950); err != nil {
		t.Fatal(err)
	}
	readOn(t, br, s, data, 950, v)
}
'''
