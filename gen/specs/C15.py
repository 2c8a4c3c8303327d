id='c15-dictionary-count'
prop='C15'
pkg='orc/column'
edits=[('orc/column/string.go','''	w.data = map[string][]int{}
	w.count = 0
''','''	if len(w.data) > w.count/2 {
		// most strings differ, nothing is gained by keeping them
		w.data = make(map[string][]int)
	} else {
		for k := range w.data {
			w.data[k] = w.data[k][:1]
		}
	}
	w.count = 0
''')]
needs='two stripes of a dictionary column with few different strings'
breaks='first rows of the second stripe get strings of the first'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_STRING, pb.ColumnEncoding_DICTIONARY_V2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 100))
	var a, b []api.Value
	for i := 0; i < 60; i++ {
		a = append(a, api.Value{V: fmt.Sprint("x", i%7)})
		b = append(b, api.Value{V: fmt.Sprint("x", (i*i+3)%7)})
	}
	p.write(t, a)
	p.flush(t)
	p.w.Reset()
	p = &stripe{f: orcio.NewMockFile(make([]byte, 4000000)), s: p.s, wo: p.wo, w: p.w}
	p.write(t, b)
	p.flush(t)
	p.check(t, p.reader(t), b, 0, len(b))
}
'''
#=====
id='c15-rows-counted-twice'
prop='C15'
pkg='orc'
edits=[('orc/stripe.go','''			*stripe.info.NumberOfRows += count
			count = 0

			// improve:  concurrent flush?
''','''			*stripe.info.NumberOfRows += count
			if i < vec.Len()-1 {
				count = 0 // more rows to come
			}

			// improve:  concurrent flush?
''')]
needs='a stripe is filled by the last row of a batch'
breaks='the rows of the batch which went into that stripe are counted to the next one as well'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}, {pb.Type_STRING, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(5000, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, 6000), data, 1)
	readFile(t, path, s, data, 700)
}
'''
#=====
id='c15-reset-if-any'
prop='C15'
pkg='orc'
edits=[('orc/stripe.go','''	for _, c := range stripe.columnWriters {
		c.Reset()
	}
''','''	for _, c := range stripe.columnWriters {
		if c.Size() != 0 {
			c.Reset()
		}
	}
''')]
needs='a dictionary column in a file of more than one stripe'
breaks='columns whose bytes are all written out are not reset: the dictionary of the second stripe contains the rows of the first'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}, {pb.Type_STRING, dict, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(5000, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, 6000), data, 500)
	readFile(t, path, s, data, 700)
}
'''
#=====
id='c15-index-rows'
prop='C15'
pkg='orc/column'
edits=[('orc/column/writer.go','''		w.indexInRows = 0
		w.index.Reset()
''','''		if w.indexInRows != len(w.index.Entry) {
			w.index.Reset()
		}
''')]
needs='a second stripe, with row indexes recorded'
breaks='the first stride of the second stripe is too short'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_LONG, pb.ColumnEncoding_DIRECT_V2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 100))
	a := dataOf(s, 150)
	p.write(t, a)
	p.flush(t)
	p.w.Reset()
	p = &stripe{f: orcio.NewMockFile(make([]byte, 4000000)), s: p.s, wo: p.wo, w: p.w}
	p.write(t, a[:90])
	p.flush(t)
	if n := len(p.w.GetIndex().GetEntry()); n != 0 {
		t.Fatalf("%d index entries after 90 rows", n)
	}
}
'''
