package common_test

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// noise cannot be compressed.
func noise(n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(n))).Read(b)
	return b
}

func roundTrip(t *testing.T, chunk int, data []byte) {
	packed, back := &bytes.Buffer{}, &bytes.Buffer{}
	if err := common.CompressingAllInChunks(pb.CompressionKind_ZLIB, chunk, packed, bytes.NewBuffer(append([]byte{}, data...))); err != nil {
		t.Fatalf("compressing %d bytes in chunks of %d: %v", len(data), chunk, err)
	}
	if err := common.DecompressChunks(pb.CompressionKind_ZLIB, back, packed); err != nil {
		t.Fatalf("decompressing %d bytes in chunks of %d: %v", len(data), chunk, err)
	}
	if !bytes.Equal(back.Bytes(), data) {
		t.Fatalf("%d bytes in chunks of %d come back as %d others", len(data), chunk, back.Len())
	}
}
