id='c11-footer-just-too-large'
prop='C11'
pkg='orc'
edits=[('orc/reader.go','''	extra := Max(0, psLen+1+footerSize+metaSize-readSize)
''','''	extra := Max(0, footerSize+metaSize-readSize)
''')]
needs='a footer which fits into the first 16 kB read, but not together with the postscript'
breaks='opening the file panics'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	for rows := 850; rows < 1600; rows++ {
		path := scratch(t)
		data := dataOf(rows, cs...)
		writeFile(t, path, s, options(pb.CompressionKind_NONE, 100, 1), data, rows)
		b, err := ioutil.ReadFile(path)
		if err != nil {
			t.Fatal(err)
		}
		n := len(b)
		l := int(b[n-1])
		var ps pb.PostScript
		if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
			t.Fatal(err)
		}
		if fl := int(ps.GetFooterLength()); fl <= 16384 && fl+l+1 > 16384 {
			readFile(t, path, s, data, 1000)
			return
		}
	}
	t.Fatal("no such footer")
}
'''
#=====
id='c11-content-length'
prop='C11'
pkg='orc'
edits=[('orc/writer.go','''		*ft.ContentLength += si.GetIndexLength() + si.GetDataLength() + si.GetFooterLength()
''','''		*ft.ContentLength = si.GetOffset() - HeaderLength + si.GetDataLength() + si.GetFooterLength()
''')]
needs='an index in the last stripe'
breaks='the content length in the footer lacks the index of the last stripe'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}, {pb.Type_STRING, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(3000, cs...)
	o := options(pb.CompressionKind_NONE, 1000, 4000)
	o.WriteIndex = true
	o.IndexStride = 100
	writeFile(t, path, s, o, data, 500)
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	n := len(b)
	l := int(b[n-1])
	var ps pb.PostScript
	if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
		t.Fatal(err)
	}
	fl := int(ps.GetFooterLength())
	var ft pb.Footer
	if err := proto.Unmarshal(b[n-1-l-fl:n-1-l], &ft); err != nil {
		t.Fatal(err)
	}
	if want := n - 1 - l - fl - 3; int(ft.GetContentLength()) != want {
		t.Fatalf("content length %d, want %d", ft.GetContentLength(), want)
	}
}
'''
#=====
id='c11-large-chunks'
prop='C11'
pkg='orc'
edits=[('orc/reader.go','''		opts.ChunkSize = tail.Postscript.GetCompressionBlockSize()
''','''		opts.ChunkSize = MinUint64(tail.Postscript.GetCompressionBlockSize(), config.DefaultChunkSize)
''')]
needs='a file written with chunks larger than 256 kB and data that does not compress'
breaks='chunks of the size the file tells are refused'
imports=['math/rand']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_STRING, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	rnd := rand.New(rand.NewSource(1))
	var d []api.Value
	for i := 0; i < 900; i++ {
		b := make([]byte, 1000)
		rnd.Read(b)
		d = append(d, api.Value{V: string(b)})
	}
	data := [][]api.Value{d}
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 800000, 4000000), data, 900)
	readFile(t, path, s, data, 900)
}
'''
