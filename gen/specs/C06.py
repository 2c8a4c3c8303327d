COMMON='''
func trip(t *testing.T, kind pb.Type_Kind, enc pb.ColumnEncoding_Kind, vs ...interface{}) {
	s := schemaOf(kind, enc, false)
	o := options(pb.CompressionKind_NONE, 1000, 0)
	p := writerOf(t, s, o)
	var data []api.Value
	for _, v := range vs {
		data = append(data, api.Value{V: v})
	}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	p.check(t, r, data, 0, len(data))
}
'''
#=====
id='c06-double-narrow'
prop='C06'
pkg='orc/column'
edits=[('orc/column/float.go','''				if vec.Vector[i].V, err = r.data.NextDouble(); err != nil {
					return err
				}
''','''				var v float64
				if v, err = r.data.NextDouble(); err != nil {
					return err
				}
				vec.Vector[i].V = float64(float32(v))
''')]
needs='a double which a float cannot represent'
breaks='doubles are delivered in float precision'
body=COMMON+'''
func TestDemo(t *testing.T) {
	trip(t, pb.Type_DOUBLE, direct, 1.5, -2.25, 0.0)
	trip(t, pb.Type_DOUBLE, direct, 1.5, 0.1, 1e300)
}
'''
#=====
id='c06-timestamp-stale-nanos'
prop='C06'
pkg='orc/column'
edits=[('orc/column/time.go','''			var ns uint64
			if ns, err = r.secondary.NextUInt64(); err != nil {
				return err
			}
''','''			var ns uint64
			var next uint64
			if next, err = r.secondary.NextUInt64(); err != nil {
				return err
			}
			if old, ok := vec.Vector[i].V.(api.Timestamp); ok && next == 0 {
				next = api.EncodingTimestampNanos(old.Nanos)
			}
			ns = next
''')]
needs='a batch used before and a timestamp of whole seconds'
breaks='a timestamp of whole seconds gets the fraction left in its place of the batch'
body=COMMON+'''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_TIMESTAMP, v2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	data := []api.Value{{V: api.Timestamp{Seconds: 1, Nanos: 7}}, {V: api.Timestamp{Seconds: 2}}}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	v := &api.ColumnVector{Id: s.Id, Kind: s.Kind, Vector: make([]api.Value, 1)}
	for j := range data {
		if err := r.NextBatch(v); err != nil {
			t.Fatal(err)
		}
		if !same(v.Vector[0], data[j]) {
			t.Fatal(j, v.Vector[0])
		}
	}
}
'''
#=====
id='c06-length-in-runes'
prop='C06'
pkg='orc/column'
edits=[('orc/column/string.go','''		dataLength = len(data)
		if err := w.data.Write(data); err != nil {
''','''		dataLength = len([]rune(s))
		if err := w.data.Write(data); err != nil {
''')]
needs='text outside of ASCII'
breaks='the length stream counts characters where the contents are bytes'
body=COMMON+'''
func TestDemo(t *testing.T) {
	trip(t, pb.Type_STRING, v2, "abc", "de", "")
	trip(t, pb.Type_STRING, v2, "abc", "grüße", "世界", "z")
}
'''
#=====
id='c06-date-sixteen-bits'
prop='C06'
pkg='orc/column'
edits=[('orc/column/time.go','''		if err := w.data.Write(int64(days)); err != nil {
''','''		if err := w.data.Write(int64(int16(days))); err != nil {
''')]
needs='a date after 2059 or before 1880'
breaks='days are cut to 16 bits'
body=COMMON+'''
func TestDemo(t *testing.T) {
	trip(t, pb.Type_DATE, v2, api.FromDays(0), api.FromDays(-1), api.FromDays(18000))
	trip(t, pb.Type_DATE, v2, api.FromDays(0), api.FromDays(40000), api.FromDays(-40000))
}
'''
