id='c24-lengths-of-nullable-strings'
prop='C24'
pkg='orc'
edits=[('orc/column/string.go','''		return w.present.Size() + w.data.Size() + w.length.Size()
	}
	return w.data.Size() + w.length.Size()
''','''		return w.present.Size() + w.data.Size()
	}
	return w.data.Size() + w.length.Size()
''')]
needs='a nullable string column whose strings are so short that their lengths make up a good part of it'
breaks='the length stream is left out of the size, the stripe grows past the configured size'
imports=['github.com/golang/protobuf/proto','github.com/patrickhuang888/goorc/orc/common']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_STRING, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := [][]api.Value{nil}
	seed := uint32(7)
	for j := 0; j < 60000; j++ {
		seed = seed*1664525 + 1013904223
		data[0] = append(data[0], api.Value{V: "ab"[:(seed>>24)%3]})
	}
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 10000), data, 500)
	readFile(t, path, s, data, 700)
	for i, x := range stripes(t, path) {
		if x.GetDataLength() > 10000+400 {
			t.Fatalf("stripe %d has %d bytes", i, x.GetDataLength())
		}
	}
}

func stripes(t *testing.T, path string) []*pb.StripeInformation {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	n := len(b)
	l := int(b[n-1])
	var ps pb.PostScript
	if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
		t.Fatal(err)
	}
	fb := b[n-1-l-int(ps.GetFooterLength()) : n-1-l]
	if ps.GetCompression() != pb.CompressionKind_NONE {
		d := &bytes.Buffer{}
		if err := common.DecompressChunks(ps.GetCompression(), d, bytes.NewBuffer(fb)); err != nil {
			t.Fatal(err)
		}
		fb = d.Bytes()
	}
	var ft pb.Footer
	if err := proto.Unmarshal(fb, &ft); err != nil {
		t.Fatal(err)
	}
	return ft.GetStripes()
}

// noise is a text of n letters
func noise(n int, seed *uint32) string {
	b := make([]byte, n)
	for i := range b {
		*seed = *seed*1664525 + 1013904223
		b[i] = byte('!' + (*seed>>20)%90)
	}
	return string(b)
}
'''
#=====
id='c24-compressed-not-counted'
prop='C24'
pkg='orc'
edits=[('orc/stream/writer.go','''	size = w.compressedBuf.Len() + w.buf.Len()
	return
''','''	// what is compressed does not change any more, ask for what is not
	if size = w.buf.Len(); size == 0 {
		size = w.compressedBuf.Len()
	}
	return
''')]
needs='compressed data of more than one chunk with a part of the next chunk not compressed yet'
breaks='the chunks already compressed are left out of the size, the stripe grows without bound'
imports=['github.com/golang/protobuf/proto','github.com/patrickhuang888/goorc/orc/common']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_STRING, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := [][]api.Value{nil}
	seed := uint32(7)
	for j := 0; j < 4000; j++ {
		data[0] = append(data[0], api.Value{V: noise(20, &seed)})
	}
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, 10000), data, 500)
	readFile(t, path, s, data, 700)
	for i, x := range stripes(t, path) {
		if x.GetDataLength() > 10000+2000 {
			t.Fatalf("stripe %d has %d bytes", i, x.GetDataLength())
		}
	}
}

func stripes(t *testing.T, path string) []*pb.StripeInformation {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	n := len(b)
	l := int(b[n-1])
	var ps pb.PostScript
	if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
		t.Fatal(err)
	}
	fb := b[n-1-l-int(ps.GetFooterLength()) : n-1-l]
	if ps.GetCompression() != pb.CompressionKind_NONE {
		d := &bytes.Buffer{}
		if err := common.DecompressChunks(ps.GetCompression(), d, bytes.NewBuffer(fb)); err != nil {
			t.Fatal(err)
		}
		fb = d.Bytes()
	}
	var ft pb.Footer
	if err := proto.Unmarshal(fb, &ft); err != nil {
		t.Fatal(err)
	}
	return ft.GetStripes()
}

// noise is a text of n letters
func noise(n int, seed *uint32) string {
	b := make([]byte, n)
	for i := range b {
		*seed = *seed*1664525 + 1013904223
		b[i] = byte('!' + (*seed>>20)%90)
	}
	return string(b)
}
'''
#=====
id='c24-looks-now-and-then'
prop='C24'
pkg='orc'
edits=[('orc/stripe.go','''		if stripe.size() >= stripe.opts.StripeSize {
''','''		// sizes change little from row to row
		if i&127 == 127 && stripe.size() >= stripe.opts.StripeSize {
''')]
needs='rows wide enough for less than 128 of them to make a stripe, or batches of less than 128 rows'
breaks='stripes grow past the configured size, or are not flushed before closing at all'
imports=['github.com/golang/protobuf/proto','github.com/patrickhuang888/goorc/orc/common']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_STRING, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := [][]api.Value{nil}
	seed := uint32(7)
	for j := 0; j < 1000; j++ {
		data[0] = append(data[0], api.Value{V: noise(500, &seed)})
	}
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 10000), data, 500)
	readFile(t, path, s, data, 700)
	for i, x := range stripes(t, path) {
		if x.GetDataLength() > 10000+1000 {
			t.Fatalf("stripe %d has %d bytes", i, x.GetDataLength())
		}
	}
}

func stripes(t *testing.T, path string) []*pb.StripeInformation {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	n := len(b)
	l := int(b[n-1])
	var ps pb.PostScript
	if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
		t.Fatal(err)
	}
	fb := b[n-1-l-int(ps.GetFooterLength()) : n-1-l]
	if ps.GetCompression() != pb.CompressionKind_NONE {
		d := &bytes.Buffer{}
		if err := common.DecompressChunks(ps.GetCompression(), d, bytes.NewBuffer(fb)); err != nil {
			t.Fatal(err)
		}
		fb = d.Bytes()
	}
	var ft pb.Footer
	if err := proto.Unmarshal(fb, &ft); err != nil {
		t.Fatal(err)
	}
	return ft.GetStripes()
}

// noise is a text of n letters
func noise(n int, seed *uint32) string {
	b := make([]byte, n)
	for i := range b {
		*seed = *seed*1664525 + 1013904223
		b[i] = byte('!' + (*seed>>20)%90)
	}
	return string(b)
}
'''
#=====
id='c24-secondary-with-nulls'
prop='C24'
pkg='orc'
edits=[('orc/column/decimal.go','''		return w.present.Size() + w.data.Size() + w.secondary.Size()
	}
''','''		return w.present.Size() + 2*w.data.Size()
	}
''')]
needs='a nullable decimal column with small numbers of varying scale'
breaks='the scales are left out of the size (twice the numbers stands for both), the stripe grows past the configured size'
imports=['github.com/golang/protobuf/proto','github.com/patrickhuang888/goorc/orc/common']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DECIMAL, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := [][]api.Value{nil}
	seed := uint32(7)
	for j := 0; j < 60000; j++ {
		seed = seed*1664525 + 1013904223
		data[0] = append(data[0], api.Value{V: api.Decimal64{int64(j % 50), int(seed>>16) % 15000}})
	}
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 10000), data, 500)
	for i, x := range stripes(t, path) {
		if x.GetDataLength() > 10000+2000 {
			t.Fatalf("stripe %d has %d bytes", i, x.GetDataLength())
		}
	}
}

func stripes(t *testing.T, path string) []*pb.StripeInformation {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	n := len(b)
	l := int(b[n-1])
	var ps pb.PostScript
	if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
		t.Fatal(err)
	}
	fb := b[n-1-l-int(ps.GetFooterLength()) : n-1-l]
	if ps.GetCompression() != pb.CompressionKind_NONE {
		d := &bytes.Buffer{}
		if err := common.DecompressChunks(ps.GetCompression(), d, bytes.NewBuffer(fb)); err != nil {
			t.Fatal(err)
		}
		fb = d.Bytes()
	}
	var ft pb.Footer
	if err := proto.Unmarshal(fb, &ft); err != nil {
		t.Fatal(err)
	}
	return ft.GetStripes()
}

// noise is a text of n letters
func noise(n int, seed *uint32) string {
	b := make([]byte, n)
	for i := range b {
		*seed = *seed*1664525 + 1013904223
		b[i] = byte('!' + (*seed>>20)%90)
	}
	return string(b)
}
'''
#=====
id='c24-rows-for-bytes'
prop='C24'
pkg='orc'
edits=[('orc/stripe.go','''		if stripe.size() >= stripe.opts.StripeSize {
''','''		// no more rows than the size of the stripe, whatever they take
		if stripe.size() >= stripe.opts.StripeSize || *stripe.info.NumberOfRows+count >= uint64(stripe.opts.StripeSize) {
''')]
needs='values so repetitive that a row takes less than a byte, and more rows than the stripe size has bytes'
breaks='stripes are flushed long before they reach the configured size, a file falls apart into tiny stripes'
imports=['github.com/golang/protobuf/proto','github.com/patrickhuang888/goorc/orc/common']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := [][]api.Value{nil}
	for j := 0; j < 30000; j++ {
		data[0] = append(data[0], api.Value{V: int64(7)})
	}
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 5000), data, 500)
	readFile(t, path, s, data, 700)
	if x := stripes(t, path); len(x) != 1 {
		t.Fatalf("%d stripes, the first of %d bytes", len(x), x[0].GetDataLength())
	}
}

func stripes(t *testing.T, path string) []*pb.StripeInformation {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	n := len(b)
	l := int(b[n-1])
	var ps pb.PostScript
	if err := proto.Unmarshal(b[n-1-l:n-1], &ps); err != nil {
		t.Fatal(err)
	}
	fb := b[n-1-l-int(ps.GetFooterLength()) : n-1-l]
	if ps.GetCompression() != pb.CompressionKind_NONE {
		d := &bytes.Buffer{}
		if err := common.DecompressChunks(ps.GetCompression(), d, bytes.NewBuffer(fb)); err != nil {
			t.Fatal(err)
		}
		fb = d.Bytes()
	}
	var ft pb.Footer
	if err := proto.Unmarshal(fb, &ft); err != nil {
		t.Fatal(err)
	}
	return ft.GetStripes()
}

// noise is a text of n letters
func noise(n int, seed *uint32) string {
	b := make([]byte, n)
	for i := range b {
		*seed = *seed*1664525 + 1013904223
		b[i] = byte('!' + (*seed>>20)%90)
	}
	return string(b)
}
'''
