package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/damage"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// A c18part is a range of a file that a stored checksum covers (or is).
type c18part struct {
	name       string
	start, end int
	all        bool // small enough to try everything
}

type c18file struct {
	name  string
	b     []byte
	parts []c18part
	calls []call
	want  []string
}

func (f *c18file) prepare(c *fw.Ctx) {
	if f.calls == nil {
		f.calls, f.want = c12answers(c, f.b)
	}
}

var c18made []*c18file

// c18chunks finds the stored chunks of the only dataset of a file, by the chunk index of
// version 1. Those for which the filter with the number was left out aren't protected.
func c18chunks(b []byte, rank, filter int) (out []c18part) {
	for i := 0; ; i++ {
		n := bytes.Index(b[i:], []byte("TREE\x01\x00"))
		if n < 0 {
			return out
		}
		i += n
		entries := int(binary.LittleEndian.Uint16(b[i+6:]))
		p := i + 24
		for range entries {
			size := int(binary.LittleEndian.Uint32(b[p:]))
			mask := binary.LittleEndian.Uint32(b[p+4:])
			p += 8 + 8*(rank+1)
			addr := int(binary.LittleEndian.Uint64(b[p:]))
			p += 8
			if mask&(1<<filter) == 0 && size > 0 {
				out = append(out, c18part{fmt.Sprintf("chunk at %d", addr), addr, addr + size, len(out) == 0})
			}
		}
	}
}

func c18files() []*c18file {
	if c18made != nil {
		return c18made
	}
	i2, i4 := family.HInt(2, false, false), family.HInt(4, false, true)
	withScratch(func(dir string) {
		add := func(name string, b []byte, chunks []c18part) {
			f := &c18file{name: name, b: b, parts: chunks}
			for _, r := range damage.Regions(b) {
				end := r.End
				if !strings.HasPrefix(r.Sig, "FHDB") {
					end += 4 // the checksum itself
				}
				f.parts = append(f.parts, c18part{fmt.Sprintf("%s at %d", r.Sig, r.Start), r.Start, end, false})
			}
			if len(f.parts) > 0 {
				c18made = append(c18made, f)
			}
		}
		for _, s := range family.Corpus() {
			if !s.CDF && !s.Own {
				add(s.Name, s.Make(dir), nil)
			}
		}
		h5 := func(f *h5gen.File) []byte {
			b, err := h5gen.Bytes(dir, f)
			if err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
			return b
		}
		ds := func(n string, salt int) *h5gen.Dataset {
			return &h5gen.Dataset{Name: n, T: i2, Shape: []int{2}, Layout: 'C', All: true, Salt: salt}
		}
		// dense storage large enough for indirect blocks and inner nodes
		for _, n := range []int{12, 60} {
			f := family.One(1)
			f.Root.Track, f.Root.Dense = true, true
			for i := range n {
				f.Root.Items = append(f.Root.Items, ds(fmt.Sprintf("link%02d", i), i))
			}
			add(fmt.Sprintf("%d dense links", n), h5(f), nil)
			d := ds("v", 1)
			d.Track, d.Dense = true, 2
			for i := range n {
				d.Attrs = append(d.Attrs, h5gen.Attr{Name: fmt.Sprintf("a%02d", i), T: i4, Shape: []int{2}, Salt: i})
			}
			add(fmt.Sprintf("%d dense attributes", n), h5(family.One(1, d)), nil)
		}
		for _, filters := range []string{"f", "df", "fd", "sf", "fs", "sdf", "dsf", "fsd"} {
			for lv := range 2 {
				for _, m := range []int{0, 1, 2} {
					d := &h5gen.Dataset{Name: "v", T: i4, Shape: []int{3, 5}, Layout: 'H', Chunk: []int{2, 3}, All: true, Filters: filters}
					if m > 0 {
						if len(filters) == 1 {
							continue
						}
						d.Masks = []int{0, m}
					}
					filter := bytes.IndexByte([]byte(filters), 'f')
					b := h5(family.One(lv, d))
					add(fmt.Sprintf("filters %s v%d masks %d", filters, lv, m), b, c18chunks(b, 2, filter))
				}
				d := &h5gen.Dataset{Name: "v", T: family.HInt(1, false, false), Shape: []int{7}, Layout: 'H', Chunk: []int{3}, All: true, Filters: filters}
				b := h5(family.One(lv, d))
				add(fmt.Sprintf("filters %s v%d bytes", filters, lv), b, c18chunks(b, 1, bytes.IndexByte([]byte(filters), 'f')))
			}
		}
	})
	return c18made
}

// c18try reads a file that differs from f.b in the protected range.
func c18try(c *fw.Ctx, f *c18file, b []byte, what string) bool {
	c.State(1)
	c.Trans(1)
	var g api.Group
	var err error
	p := obs.Safe(func() { g, err = netcdf.New(family.NewMem(b)) })
	switch {
	case p != "":
		c.Note("panics_which_are_a_matter_for_C17", 1)
		return true
	case err != nil:
		c.Note("refused_at_open", 1)
		return true
	}
	defer g.Close()
	changed := false
	for i, x := range f.calls {
		a, failed := x.run(g, noKeep)
		c.Trans(1)
		if failed {
			changed = true
			continue
		}
		if a != f.want[i] {
			c.Failf("%s: %s:\n    want: %s\n    got:  %s", what, x.name, clip(f.want[i]), clip(a))
			return false
		}
	}
	c.Trace(1)
	if changed {
		c.Note("some_calls_failed", 1)
	} else {
		c.Note("unaffected", 1)
	}
	return true
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C18", Level: "model_checking",
		Rule: "every byte of every checksummed structure (superblocks, object headers and continuations, heap headers and blocks, B-trees, recognised by an independent implementation of the checksum; chunks with the Fletcher-32 filter; the stored checksums themselves) of files made by libhdf5 and libnetcdf is replaced by other values, and runs of bytes are zeroed or inverted; every call on the altered file must fail or answer as on the intact file",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "one byte: all 255 other values; runs of 2, 4 and 8 bytes x {zeros, ones, inverted, swapped}; every position"
			}
			return "one byte: all 255 other values in the first chunk, {first bit, last bit, all bits inverted, zero} elsewhere; runs of 2, 4 and 8 bytes x {zeros, ones, inverted, swapped} in the first chunk, 4 bytes swapped elsewhere; every position"
		},
		Assumptions: []string{"alterations which the checksum can't tell apart (16-bit words of zeros and ones under Fletcher-32) are not counted"},
		Enumerate: func(tier string, y fw.Yield) {
			thorough := tier == "thorough"
			for _, f := range c18files() {
				for _, part := range f.parts {
					for from := part.start; from < part.end; from += 64 {
						to := min(from+64, part.end)
						y(func() string { return fmt.Sprintf("%s, %s: bytes %d..%d", f.name, part.name, from, to) }, func(c *fw.Ctx) {
							f.prepare(c)
							b := append([]byte{}, f.b...)
							all := thorough || part.all
							for off := from; off < to; off++ {
								for v := range 256 {
									x := byte(v) ^ f.b[off]
									if x == 0 || !all && x != 1 && x != 0x80 && x != 0xff && v != 0 {
										continue
									}
									b[off] = byte(v)
									if !c18try(c, f, b, fmt.Sprintf("byte %d = %#02x", off, v)) {
										return
									}
								}
								b[off] = f.b[off]
								for _, n := range []int{2, 4, 8} {
									if n != 4 && !all || off+n > part.end {
										continue
									}
									for how := range 4 {
										if !all && how != 3 {
											continue
										}
										for i := range n {
											switch how {
											case 0:
												b[off+i] = 0
											case 1:
												b[off+i] = 0xff
											case 2:
												b[off+i] = ^f.b[off+i]
											case 3:
												b[off+i] = f.b[off+n-1-i]
											}
										}
										if !bytes.Equal(b, f.b) && !c18same(f.b[part.start:part.end], b[part.start:part.end]) &&
											!c18try(c, f, b, fmt.Sprintf("bytes %d.. = % x", off, b[off:off+n])) {
											return
										}
										copy(b[off:off+n], f.b[off:])
									}
								}
							}
						})
					}
				}
			}
		},
	})
}

// c18same tells whether two ranges are equal to one's complement arithmetic on their 16-bit
// words, which doesn't distinguish zeros and ones.
func c18same(a, b []byte) bool {
	word := func(b []byte, i int) int {
		v := int(b[i]) << 8
		if i+1 < len(b) {
			v |= int(b[i+1])
		}
		return v % 65535
	}
	for i := 0; i < len(a); i += 2 {
		if word(a, i) != word(b, i) {
			return false
		}
	}
	return true
}
