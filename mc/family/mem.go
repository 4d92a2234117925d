package family

import (
	"bytes"
	"io"
)

// Mem is an in-memory file.
type Mem struct {
	*bytes.Reader
	Closed int
}

// NewMem serves b.
func NewMem(b []byte) *Mem { return &Mem{Reader: bytes.NewReader(b)} }

// Close counts.
func (m *Mem) Close() error { m.Closed++; return nil }

var _ io.ReadSeekCloser = (*Mem)(nil)
