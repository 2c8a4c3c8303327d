id='c01-decimal-zero-scale'
prop='C01'
pkg='orc/column'
edits=[('orc/column/decimal.go','''		if err := w.data.Write(d.Precision); err != nil {
			return err
		}
		if err := w.secondary.Write(int64(d.Scale)); err != nil {
			return err
		}
''','''		if err := w.data.Write(d.Precision); err != nil {
			return err
		}
		// zero has no scale
		if d.Precision != 0 {
			if err := w.secondary.Write(int64(d.Scale)); err != nil {
				return err
			}
		}
''')]
needs='a decimal column holding a zero among other values'
breaks='no value is written to the secondary stream for a zero, later rows get the scale of another row'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_DECIMAL, v2, true)
	p := writerOf(t, s, options(pb.CompressionKind_ZLIB, 1000, 0))
	var data []api.Value
	for i := 0; i < 500; i++ {
		if i%9 == 4 {
			data = append(data, api.Value{Null: true})
			continue
		}
		data = append(data, api.Value{V: api.Decimal64{int64(i%50) * 3, i % 7}})
	}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	p.check(t, r, data, 0, len(data))
}
'''
#=====
id='c01-timestamp-null-nanos'
prop='C01'
pkg='orc/column'
edits=[('orc/column/time.go','''		if !vec.Vector[i].Null {
			var s int64''','''		if seen := vec.Vector[i].V != nil; seen || !vec.Vector[i].Null {
			var s int64''')]
needs='a nullable timestamp column read into a batch whose vector already holds values, e.g. the second batch'
breaks='values are consumed for null rows when the batch is used again'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_TIMESTAMP, v2, true)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	data := dataOf(s, 400)
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	v := &api.ColumnVector{Id: 0, Kind: s.Kind, Vector: make([]api.Value, 100)}
	for at := 0; at < 400; at += 100 {
		for i := range v.Vector {
			v.Vector[i].Null = false
		}
		if err := r.NextBatch(v); err != nil {
			t.Fatal(err)
		}
		for j := range v.Vector {
			if !same(v.Vector[j], data[at+j]) {
				t.Fatalf("row %d: %v, want %v", at+j, v.Vector[j], data[at+j])
			}
		}
	}
}
'''
#=====
id='c01-binary-empty'
prop='C01'
pkg='orc/column'
edits=[('orc/column/binary.go','''		if err := w.length.Write(uint64(len(data))); err != nil {
			return err
		}
''','''		if n := len(data); n > 0 || !w.schema.HasNulls {
			if err := w.length.Write(uint64(n)); err != nil {
				return err
			}
		}
''')]
needs='an empty value in a nullable binary column'
breaks='an empty value gets no length, so the lengths of later rows are those of their successors'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_BINARY, v2, true)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	var data []api.Value
	for i := 0; i < 60; i++ {
		data = append(data, api.Value{V: bytes.Repeat([]byte{byte(i)}, i%4)})
	}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	p.check(t, r, data, 0, 40)
}
'''
