package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

const hdf5Magic = "\x89HDF\r\n\x1a\n"

// c25kind is the format specification's view of the first bytes.
func c25kind(b []byte) string {
	switch {
	case len(b) >= 4 && string(b[:3]) == "CDF" && (b[3] == 1 || b[3] == 2 || b[3] == 5):
		return "cdf"
	case len(b) >= 8 && string(b[:8]) == hdf5Magic:
		return "hdf5"
	}
	return ""
}

// c25open reports what an open call gave: a dump of the file or "error".
func c25open(c *fw.Ctx, what string, open func() (api.Group, error)) string {
	c.Trans(1)
	var out string
	p := obs.Safe(func() {
		g, err := open()
		switch {
		case err != nil && g != nil:
			c.Failf("%s: an error (%v) and a handle", what, err)
		case err == nil && g == nil:
			c.Failf("%s: neither an error nor a handle", what)
		case err != nil:
			out = "error"
		default:
			out = fmt.Sprint(obs.Dump(g, obs.Opt{Types: true, MaxLen: 10000}))
			g.Close()
		}
	})
	if p != "" {
		c.Failf("%s: %s", what, p)
	}
	return out
}

// c25check opens contents in every way.
func c25check(c *fw.Ctx, b []byte, names []string, positions []int64) {
	c.State(1)
	kind := c25kind(b)
	type opened struct{ what, all, cdf, hdf5 string }
	var res []opened
	for _, n := range names {
		path := filepath.Join(c.Dir, n)
		if err := os.WriteFile(path, b, 0o644); err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		res = append(res, opened{"by name " + n,
			c25open(c, "netcdf.Open", func() (api.Group, error) { return netcdf.Open(path) }),
			c25open(c, "cdf.Open", func() (api.Group, error) { return cdf.Open(path) }),
			c25open(c, "hdf5.Open", func() (api.Group, error) { return hdf5.Open(path) })})
		f := func(nw func(api.ReadSeekerCloser) (api.Group, error)) func() (api.Group, error) {
			return func() (api.Group, error) {
				file, err := os.Open(path)
				if err != nil {
					panic("CHECK BROKEN: " + err.Error())
				}
				g, err := nw(file)
				if err != nil {
					file.Close()
				}
				return g, err
			}
		}
		res = append(res, opened{"file " + n, c25open(c, "netcdf.New", f(netcdf.New)), c25open(c, "cdf.New", f(cdf.New)), c25open(c, "hdf5.New", f(hdf5.New))})
		os.Remove(path)
	}
	for _, pos := range positions {
		f := func(nw func(api.ReadSeekerCloser) (api.Group, error)) func() (api.Group, error) {
			return func() (api.Group, error) {
				m := family.NewMem(b)
				m.Seek(min(pos, int64(len(b))), io.SeekStart)
				return nw(m)
			}
		}
		what := fmt.Sprintf("file object at position %d", pos)
		res = append(res, opened{what, c25open(c, "netcdf.New, "+what, f(netcdf.New)), c25open(c, "cdf.New, "+what, f(cdf.New)), c25open(c, "hdf5.New, "+what, f(hdf5.New))})
	}
	if c.Failed() {
		return
	}
	for _, r := range res {
		c.Trace(3)
		own := map[string]string{"cdf": r.cdf, "hdf5": r.hdf5, "": "error"}[kind]
		if r.all != own {
			c.Failf("%s: content of kind %q %.60q: the general open gives\n    %s\n    the format's own\n    %s", r.what, kind, b, clip(r.all), clip(own))
			return
		}
		if kind != "cdf" && r.cdf != "error" {
			c.Failf("%s: the CDF reader opened %.60q", r.what, b)
			return
		}
		if kind != "hdf5" && r.hdf5 != "error" {
			c.Failf("%s: the HDF5 reader opened %.60q", r.what, b)
			return
		}
		if r != (opened{r.what, res[0].all, res[0].cdf, res[0].hdf5}) {
			c.Failf("%s gives\n    %s\n    %s gives\n    %s", r.what, clip(fmt.Sprint(r)), res[0].what, clip(fmt.Sprint(res[0])))
			return
		}
	}
	c.Outcome(kind + res[0].all)
}

// c25bad are sources that can't be read.
type c25bad struct {
	*bytes.Reader
	read, seek error
}

func (s *c25bad) Read(p []byte) (int, error) {
	if s.read != nil {
		return 0, s.read
	}
	return s.Reader.Read(p)
}

func (s *c25bad) Seek(o int64, w int) (int64, error) {
	if s.seek != nil {
		return 0, s.seek
	}
	return s.Reader.Seek(o, w)
}

func (s *c25bad) Close() error { return nil }

func init() {
	fw.Register(&fw.Prop{
		ID: "C25", Level: "model_checking",
		Rule: "byte strings (corpus files, their prefixes, and every change of their first bytes) are opened by name under names of every kind of extension, as files and as file objects at several positions, through the general open and the formats' own; the specification's classification of the first bytes decides which reader must answer, and all ways must give the same; sources that can't be read must give an error and no handle",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "every corpus file, every prefix up to 600 bytes of it; every value of each of the first 10 bytes of every corpus file, every pair of values from a set in two of the first 8; all strings of up to 2 bytes; 5 names, 5 positions; 14 kinds of unreadable source"
			}
			return "every corpus file, every prefix up to 100 bytes of it; every value of each of the first 10 bytes of 4 of them; all strings of up to 2 bytes; 5 names, 5 positions; 14 kinds of unreadable source"
		},
		Enumerate: func(tier string, y fw.Yield) {
			names := []string{"x.nc", "x.h5", "x.cdf", "x", "x.nc4"}
			at := func(b []byte) []int64 { return []int64{0, 1, 4, int64(len(b) / 2), int64(len(b))} }
			for si, s := range family.Corpus() {
				y(func() string { return "whole " + s.Name }, func(c *fw.Ctx) {
					b := corpusBytes(c, s)
					if c25kind(b) == "" {
						panic("CHECK BROKEN: sample is neither")
					}
					c25check(c, b, names, at(b))
					// something follows or comes before
					c25check(c, append(append([]byte{}, b...), "more"...), names[:1], at(b)[:2])
					c25check(c, append([]byte{0}, b...), names[:1], at(b)[:2])
					c25check(c, append(append([]byte{}, b[:8]...), b...), names[:1], at(b)[:2])
				})
				y(func() string { return "prefixes of " + s.Name }, func(c *fw.Ctx) {
					b := corpusBytes(c, s)
					n := 100
					if tier == "thorough" {
						n = 600
					}
					for i := 0; i < min(n, len(b)); i++ {
						c25check(c, b[:i], names[:1], []int64{0, 1})
					}
				})
				if tier != "thorough" && si%9 != 0 {
					continue
				}
				for pos := range 10 {
					y(func() string { return fmt.Sprintf("byte %d of %s", pos, s.Name) }, func(c *fw.Ctx) {
						b := append([]byte{}, corpusBytes(c, s)...)
						for v := range 256 {
							b[pos] = byte(v)
							c25check(c, b, names[:1], []int64{0, 3})
						}
					})
				}
				if tier == "thorough" {
					set := []byte{0, 1, 2, 3, 5, 'C', 'D', 'F', 'H', 0x89, '\r', '\n', 0x1a}
					for p := range 8 {
						y(func() string { return fmt.Sprintf("byte %d and another of %s", p, s.Name) }, func(c *fw.Ctx) {
							orig := corpusBytes(c, s)
							for q := p + 1; q < 8; q++ {
								for _, v := range set {
									for _, w := range set {
										b := append([]byte{}, orig...)
										b[p], b[q] = v, w
										c25check(c, b, nil, []int64{0, 2})
									}
								}
							}
						})
					}
				}
			}
			for first := range 256 {
				y(func() string { return fmt.Sprintf("short strings %d", first) }, func(c *fw.Ctx) {
					c25check(c, nil, names[:1], []int64{0})
					c25check(c, []byte{byte(first)}, names[:1], []int64{0, 1})
					for second := range 256 {
						c25check(c, []byte{byte(first), byte(second)}, nil, []int64{0, 1})
					}
				})
			}
			y(func() string { return "sources that can't be read" }, func(c *fw.Ctx) {
				var samples [][]byte
				for i, s := range family.Corpus() {
					if i%4 == 0 {
						samples = append(samples, corpusBytes(c, s))
					}
				}
				errs := map[string]error{"EOF": io.EOF, "unexpected EOF": io.ErrUnexpectedEOF, "closed": os.ErrClosed, "other": errors.New("broken")}
				for name, nw := range map[string]func(api.ReadSeekerCloser) (api.Group, error){"netcdf.New": netcdf.New, "cdf.New": cdf.New, "hdf5.New": hdf5.New} {
					for _, b := range samples {
						for what, err := range errs {
							for _, src := range []*c25bad{{bytes.NewReader(b), err, nil}, {bytes.NewReader(b), nil, err}, {bytes.NewReader(b), err, err}} {
								c.State(1)
								if out := c25open(c, name, func() (api.Group, error) { return nw(src) }); out != "error" {
									c.Failf("%s of a source whose reads give %v and seeks %v (%s): no error", name, src.read, src.seek, what)
									return
								}
							}
						}
					}
					f, err := os.CreateTemp(c.Dir, "closed")
					if err != nil {
						panic("CHECK BROKEN: " + err.Error())
					}
					f.Close()
					os.Remove(f.Name())
					if out := c25open(c, name, func() (api.Group, error) { return nw(f) }); out != "error" {
						c.Failf("%s of a closed file: no error", name)
					}
					d, err := os.Open(c.Dir)
					if err != nil {
						panic("CHECK BROKEN: " + err.Error())
					}
					if out := c25open(c, name, func() (api.Group, error) { return nw(d) }); out != "error" {
						c.Failf("%s of a directory: no error", name)
					}
					d.Close()
				}
				for name, open := range map[string]func(string) (api.Group, error){"netcdf.Open": netcdf.Open, "cdf.Open": cdf.Open, "hdf5.Open": hdf5.Open} {
					for _, path := range []string{"", c.Dir, filepath.Join(c.Dir, "missing"), filepath.Join(c.Dir, "missing", "x.nc"), "/dev/null", "nul\x00name", c.Dir + "/" + string(bytes.Repeat([]byte("n"), 300)), "/dev/null/x"} {
						c.State(1)
						if out := c25open(c, name, func() (api.Group, error) { return open(path) }); out != "error" {
							c.Failf("%s(%q): no error", name, path)
							return
						}
					}
				}
			})
		},
	})
}
