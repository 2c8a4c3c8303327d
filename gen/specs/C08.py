id='c08-truncated-chunk'
prop='C08'
pkg='orc'
edits=[('orc/common/misc.go','''				if _, err = io.CopyN(dst, src, int64(chunkLength)); err != nil {
					return errors.WithStack(err)
				}
			} else {''','''				if _, err = io.CopyN(dst, src, int64(chunkLength)); err != nil && err != io.EOF {
					return errors.WithStack(err)
				}
				err = nil
			} else {''')]
needs='a chunk stored as is which ends before its length'
breaks='a truncated chunk is taken for a whole one'
body='''
func TestDemo(t *testing.T) {
	h := []byte{byte(100<<1) | 1, 0, 0}
	var out bytes.Buffer
	src := bytes.NewBuffer(append(append([]byte{}, h...), make([]byte, 100)...))
	if err := common.DecompressChunks(pb.CompressionKind_ZLIB, &out, src); err != nil || out.Len() != 100 {
		t.Fatal(err)
	}
	src = bytes.NewBuffer(append(append([]byte{}, h...), make([]byte, 40)...))
	if err := common.DecompressChunks(pb.CompressionKind_ZLIB, &out, src); err == nil {
		t.Fatal("truncated chunk accepted")
	}
}
'''
#=====
id='c08-length-writeout'
prop='C08'
pkg='orc/column'
edits=[('orc/column/binary.go','''	ln, err := w.length.WriteOut(out)
	if err != nil {
		return 0, err
	}
	return pn + dn + ln, nil
''','''	ln, err := w.length.WriteOut(out)
	if err != nil && ln > 0 {
		return 0, err
	}
	return pn + dn + ln, nil
''')]
needs='a file refusing to take the last stream of a binary column'
breaks='a failing write of the length stream is reported as success'
body='''
type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.left {
		return 0, fmt.Errorf("full")
	}
	f.left -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	for left := 0; left < 400; left++ {
		s := schemaOf(pb.Type_BINARY, v2, true)
		o := options(pb.CompressionKind_NONE, 1000, 0)
		o.WriteIndex = false
		p := writerOf(t, s, o)
		p.write(t, dataOf(s, 50))
		if err := p.w.Flush(); err != nil {
			t.Fatal(err)
		}
		need := 0
		for _, i := range p.w.GetStreamInfos() {
			need += int(i.GetLength())
		}
		_, err := p.w.WriteOut(&full{left})
		if (err == nil) != (left >= need) {
			t.Fatalf("room for %d of %d bytes: %v", left, need, err)
		}
	}
}
'''
#=====
id='c08-skip-eof'
prop='C08'
pkg='orc/column'
edits=[('orc/column/time.go','''		if p {
			if _, err = r.data.NextInt64(); err != nil {
				return err
			}
			if _, err = r.secondary.NextUInt64(); err != nil {
				return err
			}
		}
''','''		if p {
			if _, err = r.data.NextInt64(); err != nil {
				return err
			}
			if _, err = r.secondary.NextUInt64(); err != nil {
				break // nothing left to skip
			}
		}
''')]
needs='skipping over rows of a timestamp column whose nanoseconds are truncated'
breaks='skipping reports success although a stream ended'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_TIMESTAMP, v2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1000, 0))
	data := dataOf(s, 1000)
	p.write(t, data)
	p.flush(t)
	r := p.reader(t)
	if err := r.Skip(1000); err != nil {
		t.Fatal(err)
	}
	r.Close()
	for _, i := range p.infos {
		if i.GetKind() == pb.Stream_SECONDARY {
			l := i.GetLength() / 3
			i.Length = &l
		}
	}
	r = p.reader(t)
	if err := r.Skip(1000); err == nil {
		t.Fatal("skipped 1000 rows of a truncated stream")
	}
}
'''
#=====
id='c08-lost-loop-error'
prop='C08'
pkg='orc'
edits=[('orc/stripe.go','''	for _, c := range vec.Children {
		if err := stripe.writeValue(index, c); err != nil {
			return err
		}
	}
	return nil
''','''	var err error
	for _, c := range vec.Children {
		err = stripe.writeValue(index, c)
	}
	return err
''')]
needs='a value refused by a column which is not the last of its struct'
breaks='only the error of the last child of a struct is reported'
body='''
func TestDemo(t *testing.T) {
	quiet()
	for bad := 0; bad < 3; bad++ {
		a := col{pb.Type_BINARY, v2, false}
		s := schemaOf(a, a, a)
		w, err := orc.NewOSFileWriter(scratch(t), s, options(pb.CompressionKind_ZLIB, 10000, 1<<30))
		if err != nil {
			t.Fatal(err)
		}
		v := batchOf(s, 5)
		for _, c := range v.Children {
			for i := range c.Vector {
				c.Vector[i].V = []byte("abc")
			}
		}
		v.Children[bad].Vector[3].V = "no bytes"
		if err := w.Write(v); err == nil {
			t.Fatalf("column %d: a value which cannot be written was not reported", bad)
		}
		w.Close()
	}
}
'''
