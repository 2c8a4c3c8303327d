id='c10-content-length'
prop='C10'
pkg='orc'
edits=[('orc/writer.go','''	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}
''','''	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: &contentLength, NumberOfRows: new(uint64)}
'''),('orc/writer.go','''var HeaderLength = uint64(3)
''','''var HeaderLength = uint64(3)
var contentLength uint64
''')]
needs='a second file written by the same process'
breaks='the content length of a file is added to that of the next one'
body='''
func TestDemo(t *testing.T) {
	quiet()
	c := col{pb.Type_LONG, v2, false}
	var first uint64
	for i := 0; i < 2; i++ {
		path := scratch(t)
		writeFile(t, path, schemaOf(c), options(pb.CompressionKind_ZLIB, 1000, 100000), dataOf(500, c), 100)
		b, err := ioutil.ReadFile(path)
		if err != nil {
			t.Fatal(err)
		}
		psl := int(b[len(b)-1])
		ps := &pb.PostScript{}
		if err := proto.Unmarshal(b[len(b)-1-psl:len(b)-1], ps); err != nil {
			t.Fatal(err)
		}
		var fb bytes.Buffer
		if err := common.DecompressChunks(ps.GetCompression(), &fb, bytes.NewBuffer(b[len(b)-1-psl-int(ps.GetFooterLength()):len(b)-1-psl])); err != nil {
			t.Fatal(err)
		}
		ft := &pb.Footer{}
		if err := proto.Unmarshal(fb.Bytes(), ft); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			first = ft.GetContentLength()
		} else if ft.GetContentLength() != first {
			t.Fatalf("content length %d, the same file before had %d", ft.GetContentLength(), first)
		}
	}
}
'''
#=====
id='c10-shared-compressor'
prop='C10'
pkg='orc'
edits=[('orc/common/misc.go','''	compressor, err := flate.NewWriter(tmpCBuf, -1)
	if err != nil {
		return errors.WithStack(err)
	}
	if _, err := tmpBuf.WriteTo(compressor); err != nil {
		return errors.WithStack(err)
	}
	if err = compressor.Close(); err != nil {
		return errors.WithStack(err)
	}

	if tmpCBuf.Len() > len(data) { // original
''','''	var err error
	if leftCompressor == nil {
		if leftCompressor, err = flate.NewWriter(tmpCBuf, -1); err != nil {
			return errors.WithStack(err)
		}
	} else {
		leftCompressor.Reset(tmpCBuf)
	}
	if _, err := tmpBuf.WriteTo(leftCompressor); err != nil {
		return errors.WithStack(err)
	}
	if err = leftCompressor.Close(); err != nil {
		return errors.WithStack(err)
	}

	if tmpCBuf.Len() > len(data) { // original
'''),('orc/common/misc.go','''func zlibCompressingLeft(''','''// making a compressor is expensive
var leftCompressor *flate.Writer

func zlibCompressingLeft(''')]
needs='two files written at the same time by different goroutines'
breaks='writers compress through one compressor and mix up each other\'s bytes'
body='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad <- fmt.Sprint(r)
				}
			}()
			for i := 0; i < 400; i++ {
				var data []byte
				for j := 0; j < 3000; j++ {
					data = append(data, byte(g+j%7), byte(i))
				}
				var c, d bytes.Buffer
				err := common.CompressingAllInChunks(pb.CompressionKind_ZLIB, 10000, &c, bytes.NewBuffer(append([]byte{}, data...)))
				if err == nil {
					err = common.DecompressChunks(pb.CompressionKind_ZLIB, &d, &c)
				}
				if err != nil || !bytes.Equal(d.Bytes(), data) {
					bad <- fmt.Sprint("data is not what was compressed ", err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case m := <-bad:
		t.Fatal(m)
	default:
	}
}
'''
#=====
id='c10-float-present-handle'
prop='C10'
pkg='orc'
edits=[('orc/column/float.go','''		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
''','''		if _, err = r.f.Seek(int64(startOffset), io.SeekStart); err != nil {
			return err
		}
		f.Close()
		r.present = stream.NewBoolReader(r.opts, info, startOffset, r.f)
''')]
needs='two nullable columns of one file, the first of them floating point'
breaks='markers of a floating point column are read through the handle all columns share'
body='''
func TestDemo(t *testing.T) {
	quiet()
	c := col{pb.Type_DOUBLE, direct, true}
	s := schemaOf(c, c)
	path := scratch(t)
	data := dataOf(1000, c, c)
	for i := range data {
		if len(data[i]) > 1 && i%2 == 0 {
			data[i][1] = api.Value{Null: true}
		}
	}
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 50, 100000), data, 100)
	readFile(t, path, s, data, 100)
}
'''
