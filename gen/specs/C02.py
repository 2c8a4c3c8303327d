id='c02-string-empty-skip'
prop='C02'
pkg='orc/column'
edits=[('orc/column/string.go','''			if _, err = r.data.NextString(l); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *StringDirectV2Reader) SeekStride''','''			if l == 0 {
				// nothing more to skip
				return nil
			}
			if _, err = r.data.NextString(l); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *StringDirectV2Reader) SeekStride''')]
needs='skipping over an empty string'
breaks='skipping stops at an empty string, the next row read is too early'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_STRING, v2, true)
	p := writerOf(t, s, options(pb.CompressionKind_ZLIB, 1000, 0))
	data := dataOf(s, 300)
	for i := range data {
		if i%50 == 20 {
			data[i] = api.Value{V: ""}
		}
	}
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	at := 0
	for _, k := range []int{7, 10, 30} {
		if err := r.Skip(uint64(k)); err != nil {
			t.Fatal(err)
		}
		at += k
		p.check(t, r, data, at, 20)
		at += 20
	}
}
'''
#=====
id='c02-float-width'
prop='C02'
pkg='orc/column'
edits=[('orc/column/float.go','''			if r.is64 {
				if _, err = r.data.NextDouble(); err != nil {
					return err
				}
			} else {
				if _, err = r.data.NextFloat(); err != nil {
					return err
				}
			}
''','''			if r.is64 && r.present == nil {
				if _, err = r.data.NextDouble(); err != nil {
					return err
				}
			} else {
				if _, err = r.data.NextFloat(); err != nil {
					return err
				}
			}
''')]
needs='skipping rows of a nullable double column'
breaks='a skipped double which may be null advances the stream by four bytes instead of eight'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_DOUBLE, direct, true)
	p := writerOf(t, s, options(pb.CompressionKind_ZLIB, 1000, 0))
	data := dataOf(s, 300)
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	if err := r.Skip(31); err != nil {
		t.Fatal(err)
	}
	p.check(t, r, data, 31, 100)
}
'''
#=====
id='c02-timestamp-marker'
prop='C02'
pkg='orc/column'
edits=[('orc/column/time.go','''		if p {
			if _, err = r.data.NextInt64(); err != nil {
				return err
			}
			if _, err = r.secondary.NextUInt64(); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *TimestampV2Reader) SeekStride''','''		if p {
			if _, err = r.data.NextInt64(); err != nil {
				return err
			}
		}
		if p || r.present == nil && i > 0 {
			if _, err = r.secondary.NextUInt64(); err != nil {
				return err
			}
		} else if i+1 == int(rows) {
			// a null at the end has its fraction stored
			_, err = r.secondary.NextUInt64()
		}
	}
	return err
}

func (r *TimestampV2Reader) SeekStride''')]
needs='skipping rows the last of which is null'
breaks='a value of the secondary stream is consumed for a skipped null row'
imports=[]
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_TIMESTAMP, v2, true)
	p := writerOf(t, s, options(pb.CompressionKind_ZLIB, 1000, 0))
	data := dataOf(s, 300)
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	defer r.Close()
	if err := r.Skip(9); err != nil {
		t.Fatal(err)
	}
	p.check(t, r, data, 9, 100)
}
'''
