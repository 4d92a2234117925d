package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"slices"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// vast is a file of any size: a header, and after it bytes that depend on where they are.
type vast struct {
	head []byte
	size int64
	pos  int64
}

// vastByte is the byte at a position: every 8 bytes are a mixture of their position.
func vastByte(o int64) byte {
	z := uint64(o>>3) + 0x9e3779b97f4a7c15
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	z ^= z >> 31
	return byte(z >> (8 * uint(o&7)))
}

func (s *vast) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *vast) Read(p []byte) (int, error) {
	if s.pos >= s.size {
		return 0, io.EOF
	}
	if n := s.size - s.pos; int64(len(p)) > n {
		p = p[:n]
	}
	for i := range p {
		o := s.pos + int64(i)
		if o < int64(len(s.head)) {
			p[i] = s.head[o]
		} else {
			p[i] = vastByte(o)
		}
	}
	s.pos += int64(len(p))
	return len(p), nil
}

func (s *vast) Close() error { return nil }

// places are the indices around which windows of a large dimension are requested: the
// ends, and where the offset in bytes (unit bytes per index, from start) reaches powers
// of two at which narrower integers overflow.
func places(n, unit, start int64, around int64) (ps []int64) {
	seen := map[int64]bool{}
	add := func(at int64) {
		for p := at - around; p <= at+around; p++ {
			if p >= 0 && p <= n && !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
	}
	add(0)
	add(n)
	add(n / 2)
	for _, x := range []int64{1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 35} {
		add(x)        // the index itself
		add(x / unit) // in the variable
		if x > start {
			add((x - start) / unit) // in the file
		}
	}
	return
}

// largeWindows requests the small windows at every one of these places of the first
// dimension, with every window of the others.
func largeWindows(c *fw.Ctx, g api.Group, name string, shape []int64, ps []int64, part func(b, e []int64) string, render func(any) string) string {
	vg, err := g.GetVarGetter(name)
	if err != nil {
		return fmt.Sprintf("GetVarGetter(%s): %v", name, err)
	}
	if s := fmt.Sprint(vg.Shape()); s != fmt.Sprint(shape) || vg.Len() != shape[0] {
		return fmt.Sprintf("%s: shape %s, Len %d, must be %v", name, s, vg.Len(), shape)
	}
	one := func(what string, b, e []int64, v any, err error) string {
		c.Trans(1)
		if err != nil {
			return fmt.Sprintf("%s.%s(%v,%v): %v", name, what, b, e, err)
		}
		if r, w := render(v), part(b, e); r != w {
			return fmt.Sprintf("%s.%s(%v,%v)\n    want %s\n    got  %s", name, what, b, e, clip(w), clip(r))
		}
		return ""
	}
	zero := make([]int64, len(shape)-1)
	for _, b := range ps {
		for n := int64(0); n <= 3; n++ {
			e := b + n
			if e > shape[0] {
				continue
			}
			bb, ee := append([]int64{b}, zero...), append([]int64{e}, shape[1:]...)
			v, err := vg.GetSlice(b, e)
			if bad := one("GetSlice", bb, ee, v, err); bad != "" {
				return bad
			}
			if n == 0 && b > 0 {
				continue // one with nothing is enough
			}
			if n%2 == 1 && !c.Thorough() && b%5 > 0 {
				continue
			}
			bad := ""
			limit := 6
			if c.Thorough() {
				limit = 200
			}
			windows(shape[1:], limit, func(b2, e2 []int64) bool {
				bb, ee := append([]int64{b}, b2...), append([]int64{e}, e2...)
				v, err := vg.GetSliceMD(bb, ee)
				bad = one("GetSliceMD", bb, ee, v, err)
				return bad == ""
			})
			if bad != "" {
				return bad
			}
		}
	}
	// what there isn't any more of
	for _, p := range [][2]int64{{shape[0], shape[0] + 1}, {shape[0] - 1, shape[0] + 1}, {-1, 1}, {1, 0}, {shape[0] + 1<<31, shape[0] + 1<<31 + 1}} {
		c.Trans(1)
		if v, err := vg.GetSlice(p[0], p[1]); err == nil {
			return fmt.Sprintf("%s.GetSlice(%d,%d) of %v isn't refused: %s", name, p[0], p[1], shape, clip(render(v)))
		}
	}
	return ""
}

// c08large enumerates variables of more bytes, and further into the file, than
// narrower integers can count. The bytes are made when they are read.
func c08large(tier string, y fw.Yield) {
	thorough := tier == "thorough"
	around := int64(1)
	if thorough {
		around = 3
	}
	run := func(desc string, gap int64, mk func() *cdfspec.File) {
		y(func() string { return "cdf large " + desc }, func(c *fw.Ctx) {
			f := mk()
			src := &vast{head: cdfspec.Header(f, cdfspec.Options{HeaderGap: int(gap)})}
			for i := range f.Vars {
				v := &f.Vars[i]
				n := int64(1)
				for _, s := range f.Shape(v) {
					n *= s
				}
				if n > 0 {
					src.size = max(src.size, (f.ElemOffset(v, n-1)+int64(cdfspec.Size(v.Type))+3)&^3)
				}
			}
			var g api.Group
			var err error
			if p := obs.Safe(func() { g, err = cdf.New(src) }); p != "" || err != nil {
				c.Failf("open: %v %s", err, p)
				return
			}
			defer g.Close()
			for i := range f.Vars {
				v := &f.Vars[i]
				shape := f.Shape(v)
				sz := int64(cdfspec.Size(v.Type))
				unit := sz
				for _, s := range shape[1:] {
					unit *= s
				}
				part := func(b, e []int64) string {
					var raw []byte
					n := make([]int64, len(b))
					var rec func(k int, lin int64)
					rec = func(k int, lin int64) {
						if k == len(b) {
							o := f.ElemOffset(v, lin)
							for j := range sz {
								raw = append(raw, vastByte(o+j))
							}
							return
						}
						for x := b[k]; x < e[k]; x++ {
							rec(k+1, lin*shape[k]+x)
						}
					}
					for k := range b {
						n[k] = e[k] - b[k]
					}
					rec(0, 0)
					return obs.Render(cdfspec.Value(v.Type, raw, n))
				}
				if unit > 4096 {
					continue // a filler
				}
				stride := unit
				if f.IsRecord(v) {
					stride = f.RecSize()
				}
				ps := append(places(shape[0], unit, 0, around), places(shape[0], stride, v.Begin, around)...)
				slices.Sort(ps)
				ps = slices.Compact(ps)
				bad := ""
				if p := obs.Safe(func() { bad = largeWindows(c, g, v.Name, shape, ps, part, obs.Render) }); p != "" || bad != "" {
					c.Failf("%s%s", bad, p)
					return
				}
				c.State(1)
			}
			c.Trace(1)
			c.Outcome(desc)
			c.Sample(c.Desc)
		})
	}
	for _, ver := range []int{1, 2, 5} {
		types := []int{cdfspec.Byte, cdfspec.Short, cdfspec.Double}
		if thorough {
			types = append(types, cdfspec.Char, cdfspec.Int, cdfspec.Float)
		}
		if ver == 5 && !thorough {
			types = append(types, cdfspec.UInt)
		} else if ver == 5 {
			types = append(types, cdfspec.UByte, cdfspec.UShort, cdfspec.UInt, cdfspec.Int64, cdfspec.UInt64)
		}
		begins := []int64{0, 1 << 16, 1<<31 - 4096}
		if ver > 1 {
			begins = append(begins, 1<<31-8, 1<<31, 1<<32-64, 1<<32, 1<<33+4, 1<<40)
		}
		dim := func(f *cdfspec.File, n int64) int {
			f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("d", len(f.Dims)), Len: n})
			return len(f.Dims) - 1
		}
		for _, t := range types {
			sz := int64(cdfspec.Size(t))
			for _, inner := range [][]int64{nil, {3}, {2, 3}} {
				// one long variable, the last one
				unit := sz
				for _, x := range inner {
					unit *= x
				}
				bytes := []int64{100 * unit, 1<<31 - 4, 1<<31 + 1000, 1<<32 - 4, 1<<32 + 1000, 1<<33 + 8}
				if ver == 5 {
					bytes = append(bytes, 1<<40)
				}
				for _, total := range bytes {
					for _, b := range begins {
						n := total / unit
						if ver < 5 && n > 1<<31-1 || !thorough && b > 0 && total > 1<<31 && len(inner) != 1 {
							continue
						}
						run(fmt.Sprintf("CDF-%d type %d, %d x %v from %d", ver, t, n, inner, b), b, func() *cdfspec.File {
							f := &cdfspec.File{Version: ver}
							v := cdfspec.Var{Name: "v", Type: t, DimIDs: []int{dim(f, n)}}
							for _, x := range inner {
								v.DimIDs = append(v.DimIDs, dim(f, x))
							}
							f.Vars = []cdfspec.Var{{Name: "a", Type: cdfspec.Short, DimIDs: []int{dim(f, 5)}}, v}
							return f
						})
					}
				}
				// records, next to a variable that takes that much of each record
				recs := []int64{3, 1 << 16, 1<<31 - 1}
				if ver == 5 {
					recs = append(recs, 1<<31, 1<<32-1, 1<<32, 1<<33)
				}
				for _, nr := range recs {
					for _, others := range []int64{-1, 0, 104, 1<<31 - 8, 1<<32 - 8, 1 << 33} {
						if others > 0 && nr > 1<<61/others {
							continue
						}
						if nr > 1<<17 && others > 104 && ver < 5 || others > 1<<32-8 && ver < 5 || ver == 1 && others > 1<<30 {
							continue
						}
						run(fmt.Sprintf("CDF-%d type %d, %d records of %v among %d others", ver, t, nr, inner, others), 0, func() *cdfspec.File {
							f := &cdfspec.File{Version: ver, NumRecs: nr, Dims: []cdfspec.Dim{{Name: "t"}}}
							v := cdfspec.Var{Name: "v", Type: t, DimIDs: []int{0}}
							for _, x := range inner {
								v.DimIDs = append(v.DimIDs, dim(f, x))
							}
							f.Vars = []cdfspec.Var{v}
							if others >= 0 {
								f.Vars = append(f.Vars, cdfspec.Var{Name: "w", Type: cdfspec.Short, DimIDs: []int{0}})
							}
							if others > 0 {
								f.Vars = append(f.Vars[:1:1], cdfspec.Var{Name: "filler", Type: cdfspec.Byte, DimIDs: []int{0, dim(f, others/8), dim(f, 8)}}, f.Vars[1])
							}
							return f
						})
					}
				}
			}
		}
	}
	// HDF5: chunks far out, and contiguous data in a sparse file
	h5 := func(desc string, contiguous bool, libver int, mk func() []*h5gen.Dataset) {
		y(func() string { return fmt.Sprintf("hdf5 large libver%d %s", libver, desc) }, func(c *fw.Ctx) {
			ds := mk()
			root := &h5gen.Group{}
			for _, d := range ds {
				root.Items = append(root.Items, d)
			}
			f := &h5gen.File{Libver: libver, Root: root, Sparse: contiguous}
			var g api.Group
			var err error
			if contiguous {
				name := freshName(c)
				defer os.Remove(name)
				if err := h5gen.Make(name, f); err != nil {
					c.Note("no sparse files here", 1)
					return
				}
				if p := obs.Safe(func() { g, err = netcdf.Open(name) }); p != "" || err != nil {
					c.Failf("open: %v %s", err, p)
					return
				}
			} else if g, _ = openH5(c, f); g == nil {
				return
			}
			defer g.Close()
			for _, d := range ds {
				shape := make([]int64, len(d.Shape))
				unit := int64(d.T.MemSize())
				for k, n := range d.Shape {
					shape[k] = int64(n)
					if k > 0 {
						unit *= int64(n)
					}
				}
				ps := places(shape[0], unit, 0, around)
				seen := map[int64]bool{}
				for _, p := range ps {
					seen[p] = true
				}
				for _, w := range d.Windows {
					for p := w.Start[0] - 2; p <= w.Start[0]+w.Count[0]+1; p++ {
						if p := int64(p); p >= 0 && p <= shape[0] && !seen[p] {
							seen[p] = true
							ps = append(ps, p)
						}
					}
				}
				part := func(b, e []int64) string { return norm(d.Part(b, e)) }
				bad := ""
				if p := obs.Safe(func() { bad = largeWindows(c, g, d.Name, shape, ps, part, norm) }); p != "" || bad != "" {
					c.Failf("%s%s", bad, p)
					return
				}
				c.State(1)
			}
			c.Trace(1)
			c.Outcome(desc)
			c.Sample(c.Desc)
		})
	}
	// windows written around each of these places
	far := func(shape []int, unit int64) (ws []h5gen.Window) {
		in := make([]int, len(shape))
		for _, p := range []int64{0, 1<<31/unit - 2, 1 << 31 / unit, 1<<32/unit - 1, 1<<31 - 1, 1<<32 - 1, int64(shape[0]) / 2, int64(shape[0]) - 5} {
			st, ct := append([]int{}, in...), append([]int{}, shape...)
			st[0], ct[0] = int(p), 3
			if p >= 0 && int(p)+3 <= shape[0] {
				ws = append(ws, h5gen.Window{Start: st, Count: ct})
			}
		}
		return
	}
	types := map[string]*h5gen.Type{"int8": family.HInt(1, false, false), "uint16 BE": family.HInt(2, true, true), "float64": family.HFloat(8, false), "string": family.HStr(5, 0)}
	for _, tn := range []string{"int8", "uint16 BE", "float64", "string"} {
		t := types[tn]
		for _, inner := range [][]int{nil, {3}, {2, 2}} {
			unit := int64(t.MemSize())
			for _, x := range inner {
				unit *= int64(x)
			}
			for _, total := range []int64{1<<31 - 100, 1<<31 + 1000, 1<<32 + 1000, 1<<33 + 8, 1 << 40} {
				shape := append([]int{int(total / unit)}, inner...)
				for libver := range 2 {
					if total < 1<<40 {
						h5(fmt.Sprintf("contiguous %s %v", tn, shape), true, libver, func() []*h5gen.Dataset {
							return []*h5gen.Dataset{{Name: "a", T: t, Shape: shape, Layout: 'C', Windows: far(shape, unit)},
								{Name: "b", T: t, Shape: shape, Layout: 'C', Windows: far(shape, unit), Salt: 7}}
						})
					}
					for _, ch := range []int{1, 7, 1000} {
						for _, filters := range []string{"", "sdf"} {
							if filters != "" && (ch == 1 || !thorough && libver == 1) {
								continue
							}
							chunk := append([]int{ch}, inner...)
							h5(fmt.Sprintf("chunks %v %q %s %v", chunk, filters, tn, shape), false, libver, func() []*h5gen.Dataset {
								return []*h5gen.Dataset{{Name: "a", T: t, Shape: shape, Layout: 'H', Chunk: chunk, Filters: filters, Windows: far(shape, unit), Fill: h5gen.FillValue, FillV: family.FillOf(t)}}
							})
						}
					}
				}
			}
		}
	}
}
