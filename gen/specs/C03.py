COMMON='''
func seekStrides(t *testing.T, kind pb.Type_Kind, enc pb.ColumnEncoding_Kind, nulls bool, comp pb.CompressionKind, chunk int) {
	s := schemaOf(kind, enc, nulls)
	p := writerOf(t, s, options(comp, chunk, 100))
	data := dataOf(s, 1450)
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	for _, k := range []int{3, 1, 12, 0, 5, 7, 2, 0, 4, 13} {
		if err := r.SeekStride(k); err != nil {
			t.Fatal(k, err)
		}
		p.check(t, r, data, k*100, 37)
	}
}
'''
#=====
id='c03-null-rows-not-counted'
prop='C03'
pkg='orc/column'
edits=[('orc/column/binary.go','''		w.indexInRows++
		if w.indexInRows >= w.opts.IndexStride {''','''		if !value.Null {
			w.indexInRows++
		}
		if w.indexInRows >= w.opts.IndexStride {''')]
needs='a nullable column with null rows, an index, and a seek by stride'
breaks='strides of the row index count values instead of rows, seeking lands behind the row'
imports=[]
body=COMMON+'''
func TestDemo(t *testing.T) {
	seekStrides(t, pb.Type_BINARY, v2, true, pb.CompressionKind_ZLIB, 500)
}
'''
#=====
id='c03-timestamp-position-order'
prop='C03'
pkg='orc/column'
edits=[('orc/column/time.go','''			pp = append(pp, w.data.GetPosition()...)
			pp = append(pp, w.secondary.GetPosition()...)''','''			pp = append(pp, w.secondary.GetPosition()...)
			pp = append(pp, w.data.GetPosition()...)''')]
needs='seeking to a stride of a timestamp column'
breaks='seconds and nanoseconds streams are sought to positions of each other'
imports=[]
body=COMMON+'''
func TestDemo(t *testing.T) {
	seekStrides(t, pb.Type_TIMESTAMP, v2, false, pb.CompressionKind_NONE, 5000)
}
'''
#=====
id='c03-bool-byte-position'
prop='C03'
pkg='orc/stream'
lib='column'
pkg='orc/column'
edits=[('orc/encoding/bool.go','''	if e.position != -1 {
		e.position = e.index + 1
	}
	return nil
}

func (e *boolRunLength) Flush''','''	if e.position != -1 && e.index >= 0 {
		e.position = e.index + 1
	}
	return nil
}

func (e *boolRunLength) Flush''')]
needs='an index entry recorded at a row where the markers just fill a byte (stride a multiple of eight)'
breaks='the position of the bits is 7 instead of 0, the seek lands seven rows late'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_BOOLEAN, direct, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 5000, 200))
	data := dataOf(s, 900)
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	for _, k := range []int{3, 1, 0, 4, 2} {
		if err := r.SeekStride(k); err != nil {
			t.Fatal(k, err)
		}
		p.check(t, r, data, k*200, 37)
	}
}
'''
#=====
id='c03-date-skip-pending'
prop='C03'
pkg='orc/column'
edits=[('orc/stream/time.go','''	r.values = nil
	r.consumed = 0
	for i := 0; i < int(offset); i++ {''','''	if chunkOffset == 0 {
		return nil
	}
	r.values = nil
	r.consumed = 0
	for i := 0; i < int(offset); i++ {''')]
needs='seeking a date column to a position at the start of a chunk while decoded values are left over'
breaks='values decoded before the seek are delivered after it'
imports=[]
body=COMMON+'''
func TestDemo(t *testing.T) {
	seekStrides(t, pb.Type_DATE, v2, false, pb.CompressionKind_NONE, 5000)
}
'''
