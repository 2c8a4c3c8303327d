package encoding_test

import (
	"bytes"
	"testing"

	"github.com/patrickhuang888/goorc/orc/encoding"
)

var _ = bytes.Equal

// roundTrip encodes, flushes and decodes signed integers
func roundTrip(t *testing.T, vs []int64) {
	e := encoding.NewIntRLV2(true, false)
	var buf bytes.Buffer
	for _, v := range vs {
		if err := e.Encode(v, &buf); err != nil {
			t.Fatal(err)
		}
	}
	if err := e.Flush(&buf); err != nil {
		t.Fatal(err)
	}
	var got []int64
	d := encoding.NewIntDecoder(true)
	for buf.Len() > 0 {
		x, err := d.DecodeInt(&buf)
		if err != nil {
			t.Fatal(err)
		}
		got = append(got, x...)
	}
	if len(got) != len(vs) {
		t.Fatalf("%d values, want %d", len(got), len(vs))
	}
	for i := range vs {
		if got[i] != vs[i] {
			t.Fatalf("value %d: %d, want %d", i, got[i], vs[i])
		}
	}
}
