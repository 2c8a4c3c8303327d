package stream_test

import (
	"bytes"
	"testing"

	orcio "github.com/patrickhuang888/goorc/orc/io"
)

var _ testing.TB

// memory is a file in memory
type memory struct{ *bytes.Reader }

func (m memory) Close() error                { return nil }
func (m memory) Write(p []byte) (int, error) { return 0, nil }
func (m memory) Clone() (orcio.File, error)  { return m, nil }
func (m memory) Size() (int64, error)        { return m.Reader.Size(), nil }
func fileOf(b []byte) orcio.File             { return memory{bytes.NewReader(b)} }
