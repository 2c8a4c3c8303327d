R = []
def r(id, *edits, **kw):
    R.append(dict(id=id, edits=list(edits), **kw))

r('e-scratch-strings', ('orc/stream/string.go', '''	stream *reader
}
''', '''	stream *reader
	buf    []byte
}
'''), ('orc/stream/string.go', '''	bb, err := r.NextBytes(len)
	if err != nil {
		return "", err
	}
	return string(bb), err
''', '''	if uint64(cap(r.buf)) < len {
		r.buf = make([]byte, len)
	}
	bb := r.buf[:len]
	if _, err := io.ReadFull(r.stream, bb); err != nil {
		return "", err
	}
	return string(bb), nil
'''), ('orc/stream/string.go', 'import (\n', 'import (\n\t"io"\n\n'))

r('e-scratch-bytes-copied', ('orc/stream/string.go', '''	stream *reader
}
''', '''	stream *reader
	buf    []byte
}
'''), ('orc/stream/string.go', '''	return encoding.DecodeBytes(r.stream, int(len))
''', '''	if uint64(cap(r.buf)) < len {
		r.buf = make([]byte, len)
	}
	if _, err = io.ReadFull(r.stream, r.buf[:len]); err != nil {
		return nil, err
	}
	v = make([]byte, len)
	copy(v, r.buf)
	return v, nil
'''), ('orc/stream/string.go', 'import (\n\t"github.com/patrickhuang888/goorc/orc/config"\n\t"github.com/patrickhuang888/goorc/orc/encoding"\n', 'import (\n\t"io"\n\n\t"github.com/patrickhuang888/goorc/orc/config"\n'))

r('e-append-copy', ('orc/stream/string.go', '''	return encoding.DecodeBytes(r.stream, int(len))
''', '''	b, err := encoding.DecodeBytes(r.stream, int(len))
	if err != nil {
		return nil, err
	}
	return append(make([]byte, 0, len), b...), nil
'''))

r('e-alloc-helper', ('orc/encoding/string.go', '''	value := make([]byte, length)
''', '''	value := newBytes(length)
'''), ('orc/encoding/string.go', None, '''
func newBytes(n int) []byte {
	return make([]byte, n)
}
'''), ('orc/encoding/byte.go', None, '''
func scratchBytes() []byte { return newBytes(10) }
'''))

r('e-walk-with-stack', ('orc/stripe.go', '''	if vec.Vector != nil { // maybe no present struct vector
		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
			return err
		}
	}

	for _, c := range vec.Children {
		if err := stripe.writeValue(index, c); err != nil {
			return err
		}
	}
	return nil
}
''', '''	if vec.Vector != nil { // maybe no present struct vector
		v := vec.Vector[index]
		cw := stripe.columnWriters[vec.Id]
		if err := cw.Write(v); err != nil {
			return err
		}
	}
	children := vec.Children
	for len(children) > 0 {
		if err := stripe.writeValue(index, children[0]); err != nil {
			return err
		}
		children = children[1:]
	}
	return nil
}
'''))

r('e-each-callback', ('orc/column/struct.go', '''	for i, c := range r.children {
		if err := c.NextBatch(vec.Children[i]); err != nil {
			return err
		}
	}
	return nil
}
''', '''	return eachChild(vec, func(i int, c *api.ColumnVector) error {
		return r.children[i].NextBatch(c)
	})
}

func eachChild(vec *api.ColumnVector, do func(i int, c *api.ColumnVector) error) error {
	for i, c := range vec.Children {
		if err := do(i, c); err != nil {
			return err
		}
	}
	return nil
}
'''))

r('e-log-batch', ('orc/writer.go', '''	if err := w.stripe.write(vec); err != nil {
		return err
	}
	return nil
''', '''	logger.Tracef("write %d rows, %v", vec.Len(), vec.Kind)
	if err := w.stripe.write(vec); err != nil {
		return errors.Wrapf(err, "batch of %d", vec.Id)
	}
	return nil
'''))

r('e-binary-copy', ('orc/column/binary.go', '''		if err := w.data.Write(data); err != nil {
''', '''		kept := append([]byte(nil), data...)
		if err := w.data.Write(kept); err != nil {
'''))

r('e-writer-copies', ('orc/encoding/string.go', '''	if _, err := out.Write(bs); err != nil {
		return err
	}
	return nil
''', '''	for len(bs) > 0 {
		n, err := out.Write(bs)
		if err != nil {
			return err
		}
		bs = bs[n:]
	}
	return nil
'''))

r('e-values-local', ('orc/column/binary.go', '''			if vec.Vector[i].V, err = r.data.NextBytes(l); err != nil {
				return err
			}
''', '''			slot := &vec.Vector[i]
			b, err := r.data.NextBytes(l)
			if err != nil {
				return err
			}
			slot.V = b
'''))

r('e-flat-iterative', ('orc/api/type.go', '''	err = traverse(root, func(node *TypeDescription) error {
		schemas = append(schemas, node)
		return nil
	})
	return
''', '''	todo := []*TypeDescription{root}
	for len(todo) > 0 {
		node := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if node.Kind == pb.Type_UNION {
			return schemas, errors.New("no impl")
		}
		schemas = append(schemas, node)
		for i := len(node.Children) - 1; i >= 0; i-- {
			todo = append(todo, node.Children[i])
		}
	}
	return
'''))

r('e-vector-helper', ('orc/api/type.go', '''	return &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
}

func (td TypeDescription) createDecimal64''', '''	cv := new(ColumnVector)
	td.fill(cv, opt.RowSize)
	return cv
}

func (td TypeDescription) fill(cv *ColumnVector, rows int) {
	cv.Id = td.Id
	cv.Kind = td.Kind
	cv.Vector = make([]Value, rows)
}

func (td TypeDescription) createDecimal64'''))

r('e-pool', ('orc/stream/string.go', '''	bb, err := r.NextBytes(len)
	if err != nil {
		return "", err
	}
	return string(bb), err
''', '''	bp := scratch.Get().(*[]byte)
	defer scratch.Put(bp)
	if uint64(cap(*bp)) < len {
		*bp = make([]byte, len)
	}
	bb := (*bp)[:len]
	if _, err := io.ReadFull(r.stream, bb); err != nil {
		return "", err
	}
	return string(bb), nil
'''), ('orc/stream/string.go', 'import (\n', 'import (\n\t"io"\n\t"sync"\n\n'), ('orc/stream/string.go', None, '''
var scratch = sync.Pool{New: func() interface{} { return new([]byte) }}
'''))
