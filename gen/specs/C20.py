id='c20-arena'
prop='C20'
pkg='orc/column'
edits=[('orc/stream/string.go','''	stream *reader
}
''','''	stream *reader

	arena []byte // values are cut from it
	used  int
}
'''),('orc/stream/string.go','''	return encoding.DecodeBytes(r.stream, int(len))
''','''	n := int(len)
	if n > arenaSize/4 {
		return encoding.DecodeBytes(r.stream, n)
	}
	if r.arena == nil || r.used+n > arenaSize {
		if r.arena == nil {
			r.arena = make([]byte, arenaSize)
		}
		r.used = 0
	}
	v = r.arena[r.used : r.used+n : r.used+n]
	r.used += n
	if _, err = io.ReadFull(r.stream, v); err != nil {
		return nil, err
	}
	return v, nil
'''),('orc/stream/string.go','''type StringContentsReader struct {''','''const arenaSize = 1 << 16

type StringContentsReader struct {'''),('orc/stream/string.go','''import (
''','''import (
	"io"

''')]
needs='more than 64 KB of values read while earlier ones are kept'
breaks='byte slices handed out are overwritten by later values'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_BINARY, pb.ColumnEncoding_DIRECT_V2, false)
	s.Encoding = pb.ColumnEncoding_DIRECT_V2
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1<<18, 10000))
	var data []api.Value
	for i := 0; i < 300; i++ {
		data = append(data, api.Value{V: bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 200)})
	}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	v1 := &api.ColumnVector{Kind: s.Kind, Vector: make([]api.Value, 10)}
	v2 := &api.ColumnVector{Kind: s.Kind, Vector: make([]api.Value, 290)}
	if err := r.NextBatch(v1); err != nil {
		t.Fatal(err)
	}
	if err := r.NextBatch(v2); err != nil {
		t.Fatal(err)
	}
	for i, v := range v1.Vector {
		if !bytes.Equal(v.V.([]byte), data[i].V.([]byte)) {
			t.Fatalf("row %d changed after it was read", i)
		}
	}
	for i, v := range v2.Vector {
		if !bytes.Equal(v.V.([]byte), data[10+i].V.([]byte)) {
			t.Fatalf("row %d changed after it was read", 10+i)
		}
	}
}
'''
imports=['bytes']
#=====
id='c20-unsafe-string'
prop='C20'
pkg='orc/column'
edits=[('orc/stream/string.go','''	stream *reader
}
''','''	stream *reader

	large []byte
}
'''),('orc/stream/string.go','''func (r *StringContentsReader) NextString(len uint64) (string, error) {
''','''func (r *StringContentsReader) NextString(len uint64) (string, error) {
	if len >= 4096 { // without another copy
		if uint64(cap(r.large)) < len {
			r.large = make([]byte, len)
		}
		b := r.large[:len]
		if _, err := io.ReadFull(r.stream, b); err != nil {
			return "", err
		}
		return *(*string)(unsafe.Pointer(&b)), nil
	}
'''),('orc/stream/string.go','''import (
''','''import (
	"io"
	"unsafe"

''')]
needs='two strings of 4 KB or more in one column'
breaks='a string delivered turns into the next one'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_STRING, pb.ColumnEncoding_DIRECT_V2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1<<18, 10000))
	var data []api.Value
	for i := 0; i < 20; i++ {
		data = append(data, api.Value{V: strings.Repeat(string(rune('a'+i)), 5000)})
	}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	v := &api.ColumnVector{Kind: s.Kind, Vector: make([]api.Value, 20)}
	if err := r.NextBatch(v); err != nil {
		t.Fatal(err)
	}
	for i := range v.Vector {
		if v.Vector[i].V.(string) != data[i].V.(string) {
			t.Fatalf("row %d changed after it was read", i)
		}
	}
}
'''
imports=['strings']
#=====
id='c20-batch-remembered'
prop='C20'
pkg='orc'
edits=[('orc/stripe.go','''	default:
		vec.Vector = vec.Vector[:size]
	}
''','''	default:
		// values allocated for a column once are used again
		if old := stripe.vectors[vec.Id]; cap(old) >= cap(vec.Vector) {
			vec.Vector = old
		} else {
			if stripe.vectors == nil {
				stripe.vectors = make(map[uint32][]api.Value)
			}
			stripe.vectors[vec.Id] = vec.Vector
		}
		vec.Vector = vec.Vector[:size]
	}
'''),('orc/stripe.go','''type stripeReader struct {
''','''type stripeReader struct {
	vectors map[uint32][]api.Value

''')]
needs='two batches used in turn with one reader'
breaks='rows of the first batch are overwritten by those of the second'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}, {pb.Type_STRING, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(250, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_NONE, 1000, 100000), data, 250)
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 100})
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	v1, v2 := batchOf(s, 100), batchOf(s, 100)
	if _, err := br.Next(v1); err != nil {
		t.Fatal(err)
	}
	if _, err := br.Next(v2); err != nil {
		t.Fatal(err)
	}
	check(t, s, v1, data, 0)
	check(t, s, v2, data, 100)
}
'''
