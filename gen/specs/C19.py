id='c19-large-value-held'
prop='C19'
pkg='orc/column'
edits=[('orc/encoding/string.go','''type stringContents struct {
}
''','''type stringContents struct {
	large []byte // written with what comes next
}
'''),('orc/encoding/string.go','''	if _, err := out.Write(bs); err != nil {
		return err
	}
	return nil
}
''','''	if err := e.Flush(out); err != nil {
		return err
	}
	if len(bs) >= 1<<14 {
		e.large = bs
		return nil
	}
	if _, err := out.Write(bs); err != nil {
		return err
	}
	return nil
}
'''),('orc/encoding/string.go','''func (e *stringContents) Flush(out *bytes.Buffer) error {
	return nil
''','''func (e *stringContents) Flush(out *bytes.Buffer) error {
	_, err := out.Write(e.large)
	e.large = nil
	return err
''')]
needs='a byte slice of 16 KB or more which the caller uses again for the next value'
breaks='the value written is that of a later row'
body='''
func TestDemo(t *testing.T) {
	s := schemaOf(pb.Type_BINARY, pb.ColumnEncoding_DIRECT_V2, false)
	p := writerOf(t, s, options(pb.CompressionKind_NONE, 1<<19, 10000))
	p.wo.WriteIndex = false
	w, err := column.NewWriter(s, &p.wo)
	if err != nil {
		t.Fatal(err)
	}
	p.w = w
	buf := make([]byte, 20000)
	var data []api.Value
	for i := 0; i < 10; i++ {
		for j := range buf {
			buf[j] = byte(i + j)
		}
		data = append(data, api.Value{V: append([]byte{}, buf...)})
		p.write(t, []api.Value{{V: buf}})
	}
	p.flush(t)
	r := p.reader(t)
	p.check(t, r, data, 0, 10)
}
'''
#=====
id='c19-null-cleared'
prop='C19'
pkg='orc'
edits=[('orc/stripe.go','''	if vec.Vector != nil { // maybe no present struct vector
		if err''','''	if vec.Vector != nil { // maybe no present struct vector
		if vec.Vector[index].Null {
			vec.Vector[index].V = nil // whatever was in there
		}
		if err''')]
needs='a null row whose slot still has a value'
breaks='the batch of the caller is changed'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	w, err := orc.NewOSFileWriter(path, s, options(pb.CompressionKind_NONE, 1000, 100000))
	if err != nil {
		t.Fatal(err)
	}
	v := vecOf(s, dataOf(20, cs...), 0, 20)
	for i := range v.Children[0].Vector {
		v.Children[0].Vector[i].V = float64(i)
	}
	if err := w.Write(v); err != nil {
		t.Fatal(err)
	}
	for i, x := range v.Children[0].Vector {
		if x.V != float64(i) {
			t.Fatalf("row %d of the batch is %v after it was written", i, x)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
}
'''
#=====
id='c19-batch-queued'
prop='C19'
pkg='orc'
edits=[('orc/writer.go','''	if err := w.stripe.write(vec); err != nil {
		return err
	}
	return nil
}
''','''	// small batches are put together
	w.queue = append(w.queue, *vec)
	if vec.Len() < 10 && len(w.queue) < 10 {
		return nil
	}
	return w.drain()
}

func (w *writer) drain() error {
	q := w.queue
	w.queue = nil
	for i := range q {
		if err := w.stripe.write(&q[i]); err != nil {
			return err
		}
	}
	return nil
}
'''),('orc/writer.go','''	f orcio.File
}

func (w *writer) Write''','''	f orcio.File

	queue []api.ColumnVector
}

func (w *writer) Write'''),('orc/writer.go','''	// nothing may be left when the last row filled its stripe
''','''	if err := w.drain(); err != nil {
		return err
	}

	// nothing may be left when the last row filled its stripe
''')]
needs='a batch of less than ten rows filled anew for the next call'
breaks='rows already written become those of the later batch'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	w, err := orc.NewOSFileWriter(path, s, options(pb.CompressionKind_NONE, 1000, 100000))
	if err != nil {
		t.Fatal(err)
	}
	data := dataOf(30, cs...)
	v := vecOf(s, data, 0, 5)
	for k := 0; k < 6; k++ {
		for i := 0; i < 5; i++ {
			v.Children[0].Vector[i] = data[0][k*5+i]
		}
		if err := w.Write(v); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	readFile(t, path, s, data, 10)
}
'''
#=====
id='c19-children-marked'
prop='C19'
pkg='orc'
edits=[('orc/stripe.go','''		var w column.Writer
''','''		if schema.HasNulls && schema.Id != 0 {
			for _, c := range schema.Children {
				c.HasNulls = true // a null struct has null members
			}
		}
		var w column.Writer
''')]
needs='a struct which has nulls and a member which has none'
breaks='the schema of the caller is changed'
body='''
func TestDemo(t *testing.T) {
	quiet()
	s := &api.TypeDescription{Id: 0, Kind: pb.Type_STRUCT, Encoding: pb.ColumnEncoding_DIRECT}
	n := &api.TypeDescription{Id: 1, Kind: pb.Type_STRUCT, HasNulls: true, Encoding: pb.ColumnEncoding_DIRECT}
	c := &api.TypeDescription{Id: 2, Kind: pb.Type_DOUBLE, Encoding: pb.ColumnEncoding_DIRECT}
	s.AddChild("n", n)
	n.AddChild("a", c)
	w, err := orc.NewOSFileWriter(scratch(t), s, options(pb.CompressionKind_NONE, 1000, 100000))
	if err != nil {
		t.Fatal(err)
	}
	if c.HasNulls {
		t.Fatal("the schema was changed")
	}
	_ = w
}
'''
