id='c25-end-of-file-in-chunk'
prop='C25'
pkg='orc/stream'
edits=[('orc/stream/reader.go','''		if _, err := io.CopyN(r.buf, r.f, int64(l)); err != nil {
			return errors.WithStack(err)
		}

		r.readLength += l
''','''		// the last chunk may be shorter
		n, err := io.CopyN(r.buf, r.f, int64(l))
		if err != nil && err != io.EOF {
			return errors.WithStack(err)
		}

		r.readLength += uint64(n)
''')]
needs='an uncompressed file cut short within a stream of text or floating point numbers'
breaks='reading tries again for ever to get the missing bytes'
body='''
func TestDemo(t *testing.T) {
	n, k, id := uint64(100), pb.Stream_DATA, uint32(1)
	opts := &config.ReaderOptions{CompressionKind: pb.CompressionKind_NONE, ChunkSize: 64}
	r := stream.NewStringContentsReader(opts, &pb.Stream{Column: &id, Kind: &k, Length: &n}, 0, fileOf(make([]byte, 50)))
	ended := make(chan error)
	go func() {
		_, err := r.NextString(80)
		ended <- err
	}()
	select {
	case err := <-ended:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("reading does not end")
	}
}
'''
#=====
id='c25-more-runs'
prop='C25'
pkg='orc/encoding'
edits=[('orc/encoding/int.go','''		if !toEnd {
			break
		}
''','''		// enough for another run
		if !toEnd && len(e.values) <= MaxIntRunLength/2 {
			break
		}
''')]
needs='an ascending sequence within the first half of 512 unsigned integers which are otherwise without order'
breaks='the encoder waits for more values and never returns'
body='''
func TestDemo(t *testing.T) {
	ended := make(chan bool)
	go func() {
		e := encoding.NewIntRLV2(false, false)
		var buf bytes.Buffer
		seed := uint32(1)
		for i := uint64(0); i < 1100; i++ {
			v := i
			if i > 100 {
				seed = seed*1664525 + 1013904223
				v = uint64(seed >> 8)
			}
			if err := e.Encode(v, &buf); err != nil {
				t.Error(err)
			}
		}
		if err := e.Flush(&buf); err != nil {
			t.Error(err)
		}
		ended <- true
	}()
	select {
	case <-ended:
	case <-time.After(5 * time.Second):
		t.Fatal("encoding does not end")
	}
}
'''
#=====
id='c25-width-of-signed'
prop='C25'
pkg='orc/encoding'
edits=[('orc/encoding/int.go','''func getBitsWidth(x uint64) (w int) {
	for x != 0 {
		x = x >> 1
		w++
	}
	return w
}
''','''func getBitsWidth(x uint64) (w int) {
	for rest := int64(x); rest != 0; w++ {
		rest >>= 1
	}
	return w
}
''')]
needs='a run of an integer of at least 2^62 or below -2^62'
breaks='finding the width of such a number does not end'
body='''
func TestDemo(t *testing.T) {
	ended := make(chan bool)
	go func() {
		e := encoding.NewIntRLV2(true, false)
		var buf bytes.Buffer
		for _, v := range []int64{math.MinInt64, math.MinInt64, math.MinInt64, math.MinInt64, math.MinInt64} {
			if err := e.Encode(v, &buf); err != nil {
				t.Error(err)
			}
		}
		if err := e.Flush(&buf); err != nil {
			t.Error(err)
		}
		ended <- true
	}()
	select {
	case <-ended:
	case <-time.After(5 * time.Second):
		t.Fatal("encoding does not end")
	}
}
'''
#=====
id='c25-full-batch'
prop='C25'
pkg='orc'
edits=[('orc/reader.go','''		if batch.Len() >= batch.Cap() {
			break
		}
''','''		// a batch may grow a little
		if batch.Len() > batch.Cap() || batch.Len() == batch.Cap() && batch.Cap() < 1<<10 {
			break
		}
''')]
needs='a batch of more than a thousand rows which is full before the stripe ends'
breaks='the reader asks the stripe for rows again and again although there is no room for any, and never returns'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := [][]api.Value{nil}
	for j := 0; j < 10000; j++ {
		data[0] = append(data[0], api.Value{V: int64(j * j)})
	}
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 1000000), data, 500)
	ended := make(chan bool)
	go func() {
		readFile(t, path, s, data, 3000)
		close(ended)
	}()
	select {
	case <-ended:
	case <-time.After(60 * time.Second):
		t.Fatal("reading does not end")
	}
}
'''
