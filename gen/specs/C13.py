id='c13-ordered-includes'
prop='C13'
pkg='orc'
edits=[('orc/api/type.go','''	for _, v := range bo.Includes {
		if v == id {
			return true
		}
	}
	return false
}
''','''	for _, v := range bo.Includes {
		if v >= id {
			return v == id
		}
	}
	return false
}
''')]
needs='columns asked for in another order than that of their ids'
breaks='columns asked for are left out'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}, {pb.Type_STRING, v2, false}, {pb.Type_FLOAT, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(250, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000), data, 250)
	readFile(t, path, s, data, 100)
	readFile(t, path, s, data, 100, 0, 2)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 100, Includes: []uint32{0, 3, 1}})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	readOn(t, br, s, data, 0, batchOf(s, 100, 0, 2))
}
'''
#=====
id='c13-encoding-by-place'
prop='C13'
pkg='orc'
edits=[('orc/stripe.go','''	for _, schema := range stripe.schemas {
		if stripe.bopt.IsInclude(schema.Id) {
			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
''','''	opened := 0
	for _, schema := range stripe.schemas {
		if stripe.bopt.IsInclude(schema.Id) {
			schema.Encoding = footer.GetColumns()[opened].GetKind()
			opened++
''')]
needs='a column left out before one of another encoding'
breaks='the wrong decoding is chosen, or the column is refused'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}, {pb.Type_STRING, v2, false}, {pb.Type_FLOAT, direct, false}, {pb.Type_LONG, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(250, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000), data, 250)
	readFile(t, path, s, data, 100)
	readFile(t, path, s, data, 100, 0, 1)
	readFile(t, path, s, data, 100, 1, 3)
	readFile(t, path, s, data, 100, 0, 2)
}
'''
#=====
id='c13-markers-not-passed'
prop='C13'
pkg='orc'
edits=[('orc/stripe.go','''		if readers[id] != nil {
			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
				return err
			}
		}
		dataStart += length
''','''		if readers[id] != nil {
			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
				return err
			}
		} else if streamKind == pb.Stream_PRESENT {
			// nothing follows which needs the markers
			continue
		}
		dataStart += length
''')]
needs='a nullable column left out before one which is read'
breaks='later columns are read from the wrong place'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}, {pb.Type_DOUBLE, direct, true}, {pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(250, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000), data, 250)
	readFile(t, path, s, data, 100)
	readFile(t, path, s, data, 100, 0, 1)
	readFile(t, path, s, data, 100, 1, 2)
	readFile(t, path, s, data, 100, 0, 2)
}
'''
#=====
id='c13-nested-by-place'
prop='C13'
pkg='orc'
edits=[('orc/api/type.go','''	for _, c := range td.Children {
		childVec := c.createVector(opt)
		if childVec != nil {
			cv.Children = append(cv.Children, childVec)
		}
	}
	return cv
''','''	for i := len(td.Children) - 1; i >= 0; i-- {
		childVec := td.Children[i].createVector(opt)
		if childVec != nil {
			cv.Children = append([]*ColumnVector{childVec}, cv.Children...)
		} else if len(cv.Children) > 0 {
			cv.Children = append(cv.Children[1:], cv.Children[0])
		}
	}
	return cv
''')]
needs='a vector made by CreateVector with a column left out before two which are read'
breaks='the vectors of columns change places'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}, {pb.Type_DOUBLE, direct, false}, {pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	for _, in := range [][]uint32{nil, {0, 1}, {0, 3}, {0, 1, 2}, {0, 2, 3}} {
		v, err := s.CreateVector(&api.BatchOption{RowSize: 100, Includes: in})
		if err != nil {
			t.Fatal(err)
		}
		last := uint32(0)
		for _, c := range v.Children {
			if c.Id <= last {
				t.Fatalf("%v: column %d behind %d", in, c.Id, last)
			}
			last = c.Id
		}
	}
}
'''
