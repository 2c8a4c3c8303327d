id='c21-chunks-already'
prop='C21'
pkg='orc'
edits=[('orc/stream/writer.go','''		if w.buf.Len() > 0 {
			logger.Debugf(''','''		if w.buf.Len() > w.opts.ChunkSize/2 || w.buf.Len() > 0 && w.compressedBuf.Len() == 0 {
			logger.Debugf(''')]
needs='a compressed stream which filled whole chunks before, with less than half a chunk left when the stripe is flushed'
breaks='the rest of the stream is neither compressed nor written'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_STRING, v2, true}, {pb.Type_LONG, v2, false}}
	s := schemaOf(cs...)
	for rows := 900; rows < 1000; rows += 7 {
		path := scratch(t)
		data := dataOf(rows, cs...)
		writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 400, 10000000), data, 100)
		readFile(t, path, s, data, 100)
	}
}
'''
#=====
id='c21-trailing-false-bits'
prop='C21'
pkg='orc/encoding'
edits=[('orc/encoding/bool.go','''	if e.index != -1 {
		if err := e.brl.Encode''','''	if e.value != 0 {
		if err := e.brl.Encode''')]
needs='the last values of a run of booleans, less than eight, are all false'
breaks='the last byte of the booleans is not written'
body='''
func TestDemo(t *testing.T) {
	for n := 1; n < 40; n++ {
		buf := &bytes.Buffer{}
		e := encoding.NewBoolEncoder(false)
		for i := 0; i < n; i++ {
			if err := e.Encode(i < 8*((n-1)/8), buf); err != nil {
				t.Fatal(err)
			}
		}
		if err := e.Flush(buf); err != nil {
			t.Fatal(err)
		}
		var got []bool
		for buf.Len() > 0 {
			var err error
			if got, err = encoding.DecodeBools(buf, got); err != nil {
				t.Fatal(err)
			}
		}
		if len(got) < n {
			t.Fatalf("%d booleans written, %d read", n, len(got))
		}
	}
}
'''
#=====
id='c21-int-one-write'
prop='C21'
pkg='orc/encoding'
edits=[('orc/encoding/int.go','''		if err := e.write(out, true); err != nil {
			return err
		}
		e.forgetBits()
''','''		if err := e.write(out, len(e.values) <= MaxIntRunLength/2); err != nil {
			return err
		}
		e.forgetBits()
''')]
needs='more than half a run of integers pending at the flush, made of several kinds of runs'
breaks='only the first run is written, the others stay in the encoder'
body='''
func TestDemo(t *testing.T) {
	var vs []int64
	for i := 0; i < 400; i++ {
		vs = append(vs, int64(i/20*(i%3)))
	}
	roundTrip(t, vs)
}
'''
#=====
id='c21-empty-dictionary-length'
prop='C21'
pkg='orc/column'
edits=[('orc/column/string.go','''	if err := w.dictStream.Flush(); err != nil {
		return err
	}
	if err := w.lengthStream.Flush(); err != nil {
		return err
	}
''','''	if err := w.dictStream.Flush(); err != nil {
		return err
	}
	if w.dictStream.Size() != 0 {
		if err := w.lengthStream.Flush(); err != nil {
			return err
		}
	}
''')]
needs='a dictionary holding nothing but the empty string'
breaks='the length of the empty string is not written'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_STRING, pb.ColumnEncoding_DICTIONARY_V2, true)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 100))
	var data []api.Value
	for i := 0; i < 20; i++ {
		if i%3 == 0 {
			data = append(data, api.Value{Null: true})
		} else {
			data = append(data, api.Value{V: ""})
		}
	}
	p.write(t, data)
	p.flush(t)
	p.check(t, p.reader(t), data, 0, len(data))
}
'''
