package column_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/pb/pb"
	"github.com/golang/protobuf/proto"
)

var _ = fmt.Sprint
var _ = bytes.Equal
var _ = binary.PutUvarint
var _ = proto.Marshal

const (
	direct = pb.ColumnEncoding_DIRECT
	v2     = pb.ColumnEncoding_DIRECT_V2
	dict   = pb.ColumnEncoding_DICTIONARY_V2
)

func schemaOf(kind pb.Type_Kind, enc pb.ColumnEncoding_Kind, nulls bool) *api.TypeDescription {
	return &api.TypeDescription{Id: 0, Kind: kind, Encoding: enc, HasNulls: nulls}
}

func value(s *api.TypeDescription, j int) api.Value {
	if s.HasNulls && (j%5 == 3 || j%7 == 1) {
		return api.Value{Null: true}
	}
	switch s.Kind {
	case pb.Type_SHORT:
		return api.Value{V: int16(j*j%3000 - 700)}
	case pb.Type_INT:
		return api.Value{V: int32(j*j*7%300000 - 70000)}
	case pb.Type_LONG:
		return api.Value{V: int64(j)*int64(j)*977 - 100000}
	case pb.Type_FLOAT:
		return api.Value{V: float32(j) * 1.5}
	case pb.Type_DOUBLE:
		return api.Value{V: float64(j) * -2.25}
	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
		return api.Value{V: fmt.Sprint("s", j%37, "xyz")[:2+j%3]}
	case pb.Type_BOOLEAN:
		return api.Value{V: j%3 == 0}
	case pb.Type_BYTE:
		return api.Value{V: byte(j * 3)}
	case pb.Type_BINARY:
		return api.Value{V: []byte(fmt.Sprint("b", j*j))}
	case pb.Type_DECIMAL:
		return api.Value{V: api.Decimal64{int64(j)*31 - 500, j % 4}}
	case pb.Type_DATE:
		return api.Value{V: api.FromDays(int32(j*3 - 200))}
	case pb.Type_TIMESTAMP:
		return api.Value{V: api.Timestamp{Seconds: int64(j)*3601 - 1000, Nanos: uint64(j * 1000)}}
	}
	panic("kind")
}

func dataOf(s *api.TypeDescription, rows int) (d []api.Value) {
	for j := 0; j < rows; j++ {
		d = append(d, value(s, j))
	}
	return
}

func same(a, b api.Value) bool {
	if a.Null || b.Null {
		return a.Null == b.Null
	}
	switch x := b.V.(type) {
	case []byte:
		y, ok := a.V.([]byte)
		return ok && bytes.Equal(x, y)
	case api.Timestamp:
		y, ok := a.V.(api.Timestamp)
		return ok && x.Seconds == y.Seconds && x.Nanos == y.Nanos
	}
	return reflect.DeepEqual(a.V, b.V)
}

// stripe is one column written out
type stripe struct {
	f     *orcio.MockFile
	w     column.Writer
	s     *api.TypeDescription
	wo    config.WriterOptions
	at    uint64
	infos []*pb.Stream
}

func writerOf(t *testing.T, s *api.TypeDescription, wo config.WriterOptions) *stripe {
	w, err := column.NewWriter(s, &wo)
	if err != nil {
		t.Fatal(err)
	}
	return &stripe{f: orcio.NewMockFile(make([]byte, 4000000)), w: w, s: s, wo: wo}
}

func (p *stripe) write(t *testing.T, data []api.Value) {
	for _, v := range data {
		if err := p.w.Write(v); err != nil {
			t.Fatal(err)
		}
	}
}

func (p *stripe) flush(t *testing.T) {
	if err := p.w.Flush(); err != nil {
		t.Fatal(err)
	}
	if p.wo.WriteIndex {
		b, err := proto.Marshal(p.w.GetIndex())
		if err != nil {
			t.Fatal(err)
		}
		if p.wo.CompressionKind == pb.CompressionKind_NONE {
			if _, err := p.f.Write(b); err != nil {
				t.Fatal(err)
			}
			l := uint64(len(b))
			k := pb.Stream_ROW_INDEX
			p.infos = append(p.infos, &pb.Stream{Kind: &k, Length: &l})
		} else {
			// one chunk stored as is
			n := len(b)
			c := append([]byte{byte(n<<1) | 1, byte(n >> 7), byte(n >> 15)}, b...)
			if _, err := p.f.Write(c); err != nil {
				t.Fatal(err)
			}
			l := uint64(len(c))
			k := pb.Stream_ROW_INDEX
			p.infos = append(p.infos, &pb.Stream{Kind: &k, Length: &l})
		}
	}
	if _, err := p.w.WriteOut(p.f); err != nil {
		t.Fatal(err)
	}
	p.infos = append(p.infos, p.w.GetStreamInfos()...)
}

func (p *stripe) reader(t *testing.T) column.Reader {
	ro := config.DefaultReaderOptions()
	ro.CompressionKind = p.wo.CompressionKind
	ro.ChunkSize = uint64(p.wo.ChunkSize)
	ro.IndexStride = p.wo.IndexStride
	r, err := column.NewReader(p.s, &ro, p.f)
	if err != nil {
		t.Fatal(err)
	}
	at := p.at
	for _, i := range p.infos {
		if i.GetKind() == pb.Stream_ROW_INDEX {
			if err := r.InitIndex(at, i.GetLength()); err != nil {
				t.Fatal(err)
			}
		} else if err := r.InitStream(i, at); err != nil {
			t.Fatal(err)
		}
		at += i.GetLength()
	}
	return r
}

func (p *stripe) check(t *testing.T, r column.Reader, data []api.Value, at, n int) {
	v := &api.ColumnVector{Id: p.s.Id, Kind: p.s.Kind, Vector: make([]api.Value, n)}
	if err := r.NextBatch(v); err != nil {
		t.Fatalf("at %d: %v", at, err)
	}
	for j := range v.Vector {
		if !same(v.Vector[j], data[at+j]) {
			t.Fatalf("row %d: %v, want %v", at+j, v.Vector[j], data[at+j])
		}
	}
}

func options(kind pb.CompressionKind, chunk, stride int) config.WriterOptions {
	o := config.DefaultWriterOptions()
	o.CompressionKind = kind
	o.ChunkSize = chunk
	o.WriteIndex = stride > 0
	o.IndexStride = stride
	return o
}
