// Package damage makes damaged copies of files: which bytes a reader depends on, which parts
// are protected by checksums (found with an independent implementation of the checksum), and
// the walk over everything a file lets a caller reach.
package damage

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/bits"
	"runtime/metrics"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// Source is an in-memory file that records which bytes were read from it.
type Source struct {
	B   []byte
	Pos int64
	Cov []bool // nil: not recorded
	Ops int64
	Max int64 // most operations allowed (0: any number)
}

// Loop is the panic with which a source ends a reader that keeps on reading.
type Loop struct{ N int64 }

func (s *Source) count() {
	s.Ops++
	if s.Max > 0 && s.Ops > s.Max {
		panic(Loop{s.Ops})
	}
}

// Read implements io.Reader.
func (s *Source) Read(p []byte) (int, error) {
	s.count()
	if len(p) == 0 {
		return 0, nil
	}
	if s.Pos >= int64(len(s.B)) {
		return 0, io.EOF
	}
	n := copy(p, s.B[s.Pos:])
	if s.Cov != nil {
		for i := range n {
			s.Cov[s.Pos+int64(i)] = true
		}
	}
	s.Pos += int64(n)
	return n, nil
}

// Seek implements io.Seeker.
func (s *Source) Seek(off int64, whence int) (int64, error) {
	s.count()
	switch whence {
	case io.SeekCurrent:
		off += s.Pos
	case io.SeekEnd:
		off += int64(len(s.B))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	s.Pos = off
	return off, nil
}

// Close implements io.Closer.
func (s *Source) Close() error { return nil }

// Limits of the walk: what a careful caller asks for.
const (
	MaxElems = 20000 // most elements read at once
	MaxCalls = 3000  // most calls made on one file
	Absurd   = 1e15  // more elements than this can't exist: asking for them must fail
)

// Walked is what a walk saw.
type Walked struct {
	Bad        []string // broken promises
	Calls      int
	OK, Failed int
	OpenErr    bool
}

type walk struct {
	Walked
}

func (w *walk) call(name string, f func() error) bool {
	if w.Calls >= MaxCalls {
		return false
	}
	w.Calls++
	var err error
	p := obs.Safe(func() { err = f() })
	if p != "" {
		w.Bad = append(w.Bad, name+": "+p)
		return false
	}
	if err != nil {
		w.Failed++
		return false
	}
	w.OK++
	return true
}

// Allocated tells how many bytes of memory this process has allocated so far.
func Allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// Walk opens a file and asks for everything reachable in it.
func Walk(src *Source) *Walked {
	w := &walk{}
	var g api.Group
	if !w.call("open", func() (err error) { g, err = netcdf.New(src); return err }) {
		w.OpenErr = true
		return &w.Walked
	}
	w.group(g, "/", 0)
	w.call("/ Close", func() error { g.Close(); return nil })
	return &w.Walked
}

func (w *walk) attrs(name string, f func() api.AttributeMap) {
	var am api.AttributeMap
	var keys []string
	if !w.call(name+" attributes", func() error {
		am = f()
		keys = am.Keys()
		return nil
	}) {
		return
	}
	for _, k := range keys {
		w.call(name+" attribute", func() error {
			am.Get(k)
			am.GetType(k)
			am.GetGoType(k)
			return nil
		})
	}
}

func (w *walk) group(g api.Group, path string, depth int) {
	w.attrs(path, g.Attributes)
	var vars, subs, dims, types []string
	w.call(path+" ListVariables", func() error { vars = g.ListVariables(); return nil })
	w.call(path+" ListSubgroups", func() error { subs = g.ListSubgroups(); return nil })
	w.call(path+" ListDimensions", func() error { dims = g.ListDimensions(); return nil })
	w.call(path+" ListTypes", func() error { types = g.ListTypes(); return nil })
	for _, d := range dims {
		w.call(path+" GetDimension", func() error { g.GetDimension(d); return nil })
	}
	for _, t := range types {
		w.call(path+" GetType", func() error { g.GetType(t); g.GetGoType(t); return nil })
	}
	for _, v := range vars {
		w.variable(g, path, v)
	}
	if depth > 5 {
		return
	}
	for _, s := range subs {
		var sg api.Group
		if w.call(path+" GetGroup", func() (err error) { sg, err = g.GetGroup(s); return err }) {
			w.group(sg, strings.TrimSuffix(path, "/")+"/"+s, depth+1)
			w.call(path+" Close", func() error { sg.Close(); return nil })
		}
	}
}

func product(shape []int64) float64 {
	n := 1.0
	for _, d := range shape {
		n *= float64(d)
	}
	return n
}

func (w *walk) variable(g api.Group, path, name string) {
	at := func(s string) string { return path + " variable " + s }
	var vg api.VarGetter
	if !w.call(at("GetVarGetter"), func() (err error) { vg, err = g.GetVarGetter(name); return err }) {
		// the other way must not crash, either
		w.call(at("GetVariable"), func() error { _, err := g.GetVariable(name); return err })
		return
	}
	var shape []int64
	if !w.call(at("shape"), func() error {
		shape = vg.Shape()
		vg.Len()
		vg.Dimensions()
		vg.Type()
		vg.GoType()
		return nil
	}) {
		return
	}
	for _, d := range shape {
		if d < 0 {
			w.Bad = append(w.Bad, fmt.Sprintf("%s: negative extent %v", at("shape"), shape))
			return
		}
	}
	w.attrs(at(""), vg.Attributes)
	n := product(shape)
	if n <= MaxElems || n >= Absurd {
		w.call(at("Values"), func() error { _, err := vg.Values(); return err })
		w.call(at("GetVariable"), func() error { _, err := g.GetVariable(name); return err })
	}
	if len(shape) > 0 {
		if inner := product(shape[1:]); inner <= MaxElems {
			w.call(at("GetSlice"), func() error { _, err := vg.GetSlice(0, 1); return err })
			if k := shape[0]; k > 1 {
				w.call(at("GetSlice"), func() error { _, err := vg.GetSlice(k-1, k); return err })
			}
			lo, hi := make([]int64, len(shape)), make([]int64, len(shape))
			for i, d := range shape {
				lo[i], hi[i] = d-1, d
			}
			w.call(at("GetSliceMD"), func() error { _, err := vg.GetSliceMD(lo, hi); return err })
		}
	}
}

// Region is a part of a file followed by its 4-byte checksum at End.
type Region struct {
	Sig        string
	Start, End int
}

var sigs = []string{"OHDR", "OCHK", "FRHP", "FHDB", "FHIB", "BTHD", "BTLF", "BTIN", "\x89HDF", "SMTB", "SMLI", "FSHD", "FSSE", "EAHD", "EAIB", "EASB", "EADB", "FAHD", "FADB"}

// Regions finds the structures of a well-formed file that carry a checksum: each starts with
// a signature and ends where the stored value is the lookup3 hash of what precedes it.
func Regions(b []byte) (out []Region) {
	for i := 0; i+8 < len(b); i++ {
		for _, s := range sigs {
			if string(b[i:i+4]) != s {
				continue
			}
			limit := min(len(b)-4, i+5000)
			for e := i + 8; e <= limit; e++ {
				want := binary.LittleEndian.Uint32(b[e:])
				if Lookup3(b[i:e]) == want {
					out = append(out, Region{s, i, e})
					break
				}
				if s == "FHDB" {
					// the checksum is inside, over the block with the field zeroed
					if r, ok := directBlock(b, i, limit); ok {
						out = append(out, r)
					}
					break
				}
			}
		}
	}
	return out
}

// directBlock: the size of a direct block isn't in the block itself; not needed here, since
// libhdf5 checksums them only when asked to, and then the whole block incl. the field zeroed.
func directBlock(b []byte, i, limit int) (Region, bool) {
	// signature 4, version 1, heap header address 8, block offset 1..8, then the checksum
	for off := 1; off <= 8; off++ {
		p := i + 13 + off
		if p+4 > len(b) {
			break
		}
		want := binary.LittleEndian.Uint32(b[p:])
		if want == 0 {
			continue
		}
		for size := 512; i+size <= len(b); size *= 2 {
			c := append([]byte{}, b[i:i+size]...)
			copy(c[p-i:], []byte{0, 0, 0, 0})
			if Lookup3(c) == want {
				return Region{fmt.Sprintf("FHDB/%d", p-i), i, i + size}, true
			}
		}
	}
	return Region{}, false
}

// Inside finds the region that covers a byte.
func Inside(rs []Region, off int) *Region {
	for i := range rs {
		if off >= rs[i].Start && off < rs[i].End {
			return &rs[i]
		}
	}
	return nil
}

// Fix stores the checksum that b's contents of a region call for.
func Fix(b []byte, r Region) {
	var at int
	if n, _ := fmt.Sscanf(r.Sig, "FHDB/%d", &at); n == 1 {
		p := r.Start + at
		copy(b[p:p+4], []byte{0, 0, 0, 0})
		binary.LittleEndian.PutUint32(b[p:], Lookup3(b[r.Start:r.End]))
		return
	}
	binary.LittleEndian.PutUint32(b[r.End:], Lookup3(b[r.Start:r.End]))
}

// Lookup3 is Bob Jenkins' hash, as the format specification has it.
func Lookup3(k []byte) uint32 {
	n := len(k)
	a := uint32(0xdeadbeef) + uint32(n)
	b, c := a, a
	le := func(i int) uint32 {
		v := uint32(0)
		for j := range 4 {
			if i+j < len(k) {
				v |= uint32(k[i+j]) << (8 * j)
			}
		}
		return v
	}
	rot := bits.RotateLeft32
	i := 0
	for n > 12 {
		a += le(i)
		b += le(i + 4)
		c += le(i + 8)
		a -= c
		a ^= rot(c, 4)
		c += b
		b -= a
		b ^= rot(a, 6)
		a += c
		c -= b
		c ^= rot(b, 8)
		b += a
		a -= c
		a ^= rot(c, 16)
		c += b
		b -= a
		b ^= rot(a, 19)
		a += c
		c -= b
		c ^= rot(b, 4)
		b += a
		i += 12
		n -= 12
	}
	if n == 0 {
		return c
	}
	a += le(i)
	b += le(i + 4)
	c += le(i + 8)
	c ^= b
	c -= rot(b, 14)
	a ^= c
	a -= rot(c, 11)
	b ^= a
	b -= rot(a, 25)
	c ^= b
	c -= rot(b, 16)
	a ^= c
	a -= rot(c, 4)
	b ^= a
	b -= rot(a, 14)
	c ^= b
	c -= rot(b, 24)
	return c
}

var _ = math.MaxInt64
