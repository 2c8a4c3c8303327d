id='c14-date-first-value'
prop='C14'
pkg='orc/column'
edits=[('orc/column/time.go','''		days = api.ToDays(date)
		if err := w.data.Write(int64(days)); err != nil {
			return err
		}
''','''		days = api.ToDays(date)
		if err := w.data.Write(int64(days)); err != nil {
			return err
		}
		*w.stats.NumberOfValues++
'''),('orc/column/time.go','''			*w.stats.DateStatistics.Maximum = days
		}
		*w.stats.NumberOfValues++
	}

''','''			*w.stats.DateStatistics.Maximum = days
		}
	}

''')]
needs='all dates of a column on the same side of 1970-01-01'
breaks='minimum (or maximum) of the dates is reported as day 0, which never was written'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_DATE, pb.ColumnEncoding_DIRECT_V2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	var a []api.Value
	for i := 0; i < 60; i++ {
		a = append(a, api.Value{V: api.FromDays(int32(1000 + i*7%13))})
	}
	p.write(t, a)
	p.flush(t)
	if m := p.w.GetStats().GetDateStatistics().GetMinimum(); m != 1000 {
		t.Fatalf("minimum %d", m)
	}
}
'''
#=====
id='c14-index-shares-sum'
prop='C14'
pkg='orc/column'
edits=[('orc/column/int.go','''			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
''','''			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
				// ranges of values only ever grow
				IntStatistics: w.stats.IntStatistics}
''')]
needs='an integer column with more rows than one index stride'
breaks='values after the first stride are added twice to the sum in the footer'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_LONG, pb.ColumnEncoding_DIRECT_V2, true)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 50))
	sum := int64(0)
	var a []api.Value
	for i := 0; i < 170; i++ {
		if i%7 == 0 {
			a = append(a, api.Value{Null: true})
			continue
		}
		a = append(a, api.Value{V: int64(i*i - 5000)})
		sum += int64(i*i - 5000)
	}
	p.write(t, a)
	p.flush(t)
	if v := p.w.GetStats().GetIntStatistics().GetSum(); v != sum {
		t.Fatalf("sum %d, want %d", v, sum)
	}
}
'''
#=====
id='c14-bool-size-of-last-stripe'
prop='C14'
pkg='orc/column'
edits=[('orc/column/bool.go','''	*w.stats.BytesOnDisk += w.data.Info().GetLength()
	w.flushed = true
''','''	*w.stats.BytesOnDisk = w.data.Info().GetLength()
	w.flushed = true
''')]
needs='several stripes and a boolean column'
breaks='size on disk is that of the last stripe only'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_BOOLEAN, pb.ColumnEncoding_DIRECT, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	total := uint64(0)
	for k := 0; k < 3; k++ {
		p.write(t, dataOf(s, 3000))
		if err := p.w.Flush(); err != nil {
			t.Fatal(err)
		}
		for _, i := range p.w.GetStreamInfos() {
			total += i.GetLength()
		}
		p.w.Reset()
	}
	if v := p.w.GetStats().GetBytesOnDisk(); v != total {
		t.Fatalf("%d bytes, want %d", v, total)
	}
}
'''
#=====
id='c14-string-counts-empty'
prop='C14'
pkg='orc/column'
edits=[('orc/column/string.go','''		*w.stats.NumberOfValues++
		*w.stats.StringStatistics.Sum += int64(dataLength)
''','''		if dataLength > 0 || *w.stats.StringStatistics.Sum == 0 {
			*w.stats.NumberOfValues++
		}
		*w.stats.StringStatistics.Sum += int64(dataLength)
''')]
needs='an empty string after a string that is not'
breaks='empty strings are not counted as values'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_STRING, pb.ColumnEncoding_DIRECT_V2, true)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	p.write(t, []api.Value{{V: ""}, {V: "a"}, {Null: true}, {V: ""}, {V: "b"}})
	p.flush(t)
	if v := p.w.GetStats().GetNumberOfValues(); v != 4 {
		t.Fatalf("%d values", v)
	}
}
'''
