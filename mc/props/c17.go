package props

import (
	"fmt"
	"os"

	"github.com/batchatco/go-native-netcdf/verifmc/damage"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
)

// A c17file is an intact file and what is known about it.
type c17file struct {
	name    string
	b       []byte
	regions []damage.Region
	ops     int64
}

var c17made []*c17file

// c17files: the files of the corpus that were not written by this library, so that the
// structures they are made of don't depend on the code under test.
func c17files() []*c17file {
	if c17made == nil {
		withScratch(func(dir string) {
			for _, s := range family.Corpus() {
				if s.Own {
					continue
				}
				b := s.Make(dir)
				c17made = append(c17made, &c17file{name: s.Name, b: b, regions: damage.Regions(b)})
			}
		})
	}
	return c17made
}

// c17values: what a byte is replaced with.
func c17values(old byte, large, thorough bool) (out []byte) {
	vs := []byte{0, 0xff, 0x7f, old ^ 1, old ^ 0x80, old + 2, old ^ 0x10}
	if large {
		vs = vs[:4]
	}
	if thorough {
		vs = append(vs, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x0f, 0x10, 0x11, 0x12, 0x14, 0x18, 0x20, 0x28, 0x40, 0x41, 0x80, 0x81, 0xc0, 0xfe, old-1, old+1, old^2, old^4, old^8, old^0x20, old^0x40)
	}
	var seen [256]bool
	seen[old] = true
	for _, v := range vs {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// c17windows: what 4 and 8 byte wide fields are replaced with.
var c17windows = [][]byte{
	{0xff, 0xff, 0xff, 0xff},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0xff, 0xff, 0xff, 0x7f}, {0x7f, 0xff, 0xff, 0xff},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0, 0, 0, 0, 0, 0, 0, 0},
	{0, 0, 0, 0, 1, 0, 0, 0}, {0, 0, 0, 1},
	{0xf0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0, 0, 0, 0, 0, 0, 0, 0x20},
}

const (
	c17block = 32
	// memory a careful caller's walk over a damaged file may use: the intact ones need
	// less than 2 MB
	c17alloc = 192 << 20
)

// c17try walks a damaged file.
func c17try(c *fw.Ctx, f *c17file, b []byte, what func() string) {
	if f.ops == 0 {
		src := &damage.Source{B: f.b}
		w := damage.Walk(src)
		if len(w.Bad) > 0 {
			// a matter for other properties
			c.Note("intact_file_not_read", 1)
		}
		f.ops = src.Ops
	}
	src := &damage.Source{B: b, Max: 1000000}
	before := damage.Allocated()
	w := damage.Walk(src)
	used := damage.Allocated() - before
	c.State(1)
	c.Trans(w.Calls)
	c.Trace(1)
	switch {
	case w.OpenErr:
		c.Note("refused_at_open", 1)
	case w.Failed > 0:
		c.Note("some_calls_failed", 1)
	default:
		c.Note("all_calls_worked", 1)
	}
	for _, x := range w.Bad {
		c.Failf("%s: %s", what(), x)
	}
	if used > c17alloc {
		c.Failf("%s: reading needs %d MB of memory", what(), used>>20)
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID:    "C17",
		Level: "model_checking",
		Rule:  "every file of a corpus made by libhdf5, libnetcdf and an independent CDF encoder x every truncation point x every byte x substituted values, and every offset x boundary values of 4 and 8 byte wide fields (the damaged metadata both as it is and with the checksum that covers it made right); each damaged file is opened and everything reachable in it is read in a worker process; a panic, an exit, a hang, more than a million reads, or the use of more than 192 MB is a violation",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "one damaged place per file; up to 38 values per byte, 11 values per field"
			}
			return "one damaged place per file; up to 7 values per byte (4 in files larger than 8000 bytes), 2 values per field"
		},
		Assumptions: []string{
			"the caller reads whole variables of up to 20000 elements, and parts of larger ones",
			"a variable of more than 1e15 elements must be refused",
		},
		MemLimitMB: 3000,
		CaseCPU:    40,
		Enumerate: func(tier string, y fw.Yield) {
			thorough := tier == "thorough"
			for _, f := range c17files() {
				for from := 0; from < len(f.b); from += c17block {
					to := min(from+c17block, len(f.b))
					y(func() string { return fmt.Sprintf("%s cut off at %d..%d", f.name, from, to) }, func(c *fw.Ctx) {
						for l := from; l < to; l++ {
							c17try(c, f, f.b[:l], func() string { return fmt.Sprintf("%d bytes left", l) })
						}
					})
					y(func() string { return fmt.Sprintf("%s bytes %d..%d", f.name, from, to) }, func(c *fw.Ctx) {
						b := append([]byte{}, f.b...)
						for off := from; off < to; off++ {
							r := damage.Inside(f.regions, off)
							for _, v := range c17values(f.b[off], len(f.b) > 8000 && !thorough, thorough) {
								b[off] = v
								if r != nil {
									if thorough {
										c17try(c, f, b, func() string { return fmt.Sprintf("byte %d = %#02x", off, v) })
									}
									damage.Fix(b, *r)
								}
								c17try(c, f, b, func() string { return fmt.Sprintf("byte %d = %#02x (checksum right)", off, v) })
								if r != nil {
									copy(b[r.Start:], f.b[r.Start:min(r.End+4, len(b))])
								}
							}
							b[off] = f.b[off]
						}
					})
					y(func() string { return fmt.Sprintf("%s fields %d..%d", f.name, from, to) }, func(c *fw.Ctx) {
						b := append([]byte{}, f.b...)
						for off := from; off < to; off++ {
							for i, v := range c17windows {
								if i >= 2 && !thorough || off+len(v) > len(b) {
									continue
								}
								copy(b[off:], v)
								r := damage.Inside(f.regions, off)
								if r != nil {
									damage.Fix(b, *r)
								}
								c17try(c, f, b, func() string { return fmt.Sprintf("bytes %d.. = % x (checksum right)", off, v) })
								copy(b[off:], f.b[off:off+len(v)])
								if r != nil {
									copy(b[r.Start:], f.b[r.Start:min(r.End+4, len(b))])
								}
							}
						}
					})
				}
			}
		},
	})
}

// withScratch runs f with a scratch directory.
func withScratch(f func(dir string)) {
	dir, err := os.MkdirTemp("/dev/shm", "verifmc-files-")
	if err != nil {
		if dir, err = os.MkdirTemp("", "verifmc-files-"); err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
	}
	defer os.RemoveAll(dir)
	f(dir)
}
