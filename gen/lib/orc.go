package orc_test

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
)

var _ = fmt.Sprint
var _ = os.Open

type col struct {
	kind  pb.Type_Kind
	enc   pb.ColumnEncoding_Kind
	nulls bool
}

const (
	direct = pb.ColumnEncoding_DIRECT
	v2     = pb.ColumnEncoding_DIRECT_V2
	dict   = pb.ColumnEncoding_DICTIONARY_V2
)

func schemaOf(cols ...col) *api.TypeDescription {
	s := &api.TypeDescription{Id: 0, Kind: pb.Type_STRUCT}
	for i, c := range cols {
		s.Children = append(s.Children, &api.TypeDescription{Id: uint32(i + 1), Kind: c.kind, Encoding: c.enc, HasNulls: c.nulls})
		s.ChildrenNames = append(s.ChildrenNames, fmt.Sprintf("c%d", i))
	}
	return s
}

// value number j of a column
func value(c col, j int) api.Value {
	if c.nulls && (j%5 == 3 || j%7 == 1) {
		return api.Value{Null: true}
	}
	switch c.kind {
	case pb.Type_SHORT:
		return api.Value{V: int16(j*j%3000 - 700)}
	case pb.Type_INT:
		return api.Value{V: int32(j*j*7%300000 - 70000)}
	case pb.Type_LONG:
		return api.Value{V: int64(j)*int64(j)*977 - 100000}
	case pb.Type_FLOAT:
		return api.Value{V: float32(j) * 1.5}
	case pb.Type_DOUBLE:
		return api.Value{V: float64(j) * -2.25}
	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
		return api.Value{V: fmt.Sprint("s", j%37, "xyz")[:2+j%3]}
	case pb.Type_BOOLEAN:
		return api.Value{V: j%3 == 0}
	case pb.Type_BYTE:
		return api.Value{V: byte(j * 3)}
	case pb.Type_BINARY:
		return api.Value{V: []byte(fmt.Sprint("b", j*j))}
	case pb.Type_DECIMAL:
		return api.Value{V: api.Decimal64{int64(j)*31 - 500, j % 4}}
	case pb.Type_DATE:
		return api.Value{V: api.FromDays(int32(j*3 - 200))}
	case pb.Type_TIMESTAMP:
		return api.Value{V: api.Timestamp{Seconds: int64(j)*3601 - 1000, Nanos: uint64(j * 1000)}}
	}
	panic("kind")
}

func dataOf(rows int, cols ...col) [][]api.Value {
	d := make([][]api.Value, len(cols))
	for i, c := range cols {
		for j := 0; j < rows; j++ {
			d[i] = append(d[i], value(c, j))
		}
	}
	return d
}

func vecOf(s *api.TypeDescription, data [][]api.Value, from, to int) *api.ColumnVector {
	v := &api.ColumnVector{Id: 0, Kind: pb.Type_STRUCT}
	for i, c := range s.Children {
		v.Children = append(v.Children, &api.ColumnVector{Id: c.Id, Kind: c.Kind, Vector: append([]api.Value{}, data[i][from:to]...)})
	}
	return v
}

func scratch(t *testing.T) string {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return filepath.Join(d, "f.orc")
}

// writeFile writes data in batches
func writeFile(t *testing.T, path string, s *api.TypeDescription, o config.WriterOptions, data [][]api.Value, batch int) {
	w, err := orc.NewOSFileWriter(path, s, o)
	if err != nil {
		t.Fatal(err)
	}
	rows := len(data[0])
	for at := 0; at < rows; at += batch {
		to := at + batch
		if to > rows {
			to = rows
		}
		if err := w.Write(vecOf(s, data, at, to)); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
}

func batchOf(s *api.TypeDescription, rows int, ids ...int) *api.ColumnVector {
	v := &api.ColumnVector{Id: 0, Kind: pb.Type_STRUCT}
	for i, c := range s.Children {
		in := len(ids) == 0
		for _, k := range ids {
			in = in || k == i
		}
		if in {
			v.Children = append(v.Children, &api.ColumnVector{Id: c.Id, Kind: c.Kind, Vector: make([]api.Value, rows)})
		}
	}
	return v
}

func same(a, b api.Value) bool {
	if a.Null || b.Null {
		return a.Null == b.Null
	}
	switch x := b.V.(type) {
	case []byte:
		y, ok := a.V.([]byte)
		return ok && bytes.Equal(x, y)
	case api.Timestamp:
		y, ok := a.V.(api.Timestamp)
		return ok && x.Seconds == y.Seconds && x.Nanos == y.Nanos
	}
	return reflect.DeepEqual(a.V, b.V)
}

// check compares a batch with the rows from at on
func check(t *testing.T, s *api.TypeDescription, v *api.ColumnVector, data [][]api.Value, at int) int {
	n := v.Len()
	for _, c := range v.Children {
		if len(c.Vector) != n {
			t.Fatalf("ragged batch at %d", at)
		}
		for j := range c.Vector {
			if at+j >= len(data[c.Id-1]) {
				t.Fatalf("rows past the end at %d", at+j)
			}
			if !same(c.Vector[j], data[c.Id-1][at+j]) {
				t.Fatalf("column %d row %d: %v, want %v", c.Id, at+j, c.Vector[j], data[c.Id-1][at+j])
			}
		}
	}
	return n
}

// readFile reads all rows in batches and compares
func readFile(t *testing.T, path string, s *api.TypeDescription, data [][]api.Value, batch int, ids ...int) {
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	o := &api.BatchOption{RowSize: batch}
	if len(ids) > 0 {
		o.Includes = []uint32{0}
		for _, i := range ids {
			o.Includes = append(o.Includes, uint32(i+1))
		}
	}
	br, err := r.CreateBatchReader(o)
	if err != nil {
		t.Fatal(err)
	}
	defer br.Close()
	readOn(t, br, s, data, 0, batchOf(s, batch, ids...))
}

// readOn reads all rows from at on
func readOn(t *testing.T, br orc.BatchReader, s *api.TypeDescription, data [][]api.Value, at int, v *api.ColumnVector) {
	for {
		end, err := br.Next(v)
		if err != nil {
			t.Fatalf("at %d: %v", at, err)
		}
		n := check(t, s, v, data, at)
		at += n
		if end {
			break
		}
		if n == 0 {
			t.Fatalf("no rows at %d", at)
		}
	}
	if at != len(data[0]) {
		t.Fatalf("%d rows of %d", at, len(data[0]))
	}
}

func options(kind pb.CompressionKind, chunk, stripe int) config.WriterOptions {
	o := config.DefaultWriterOptions()
	o.CompressionKind = kind
	o.ChunkSize = chunk
	o.StripeSize = stripe
	return o
}

func quiet() {
	orc.SetLogLevel(0)
}
