package family

import (
	"fmt"

	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
)

// YieldH5 is given each generated HDF5 file, lazily made.
type YieldH5 func(desc string, mk func() *h5gen.File)

// Shorthands for datatypes.
func HInt(size int, uns, be bool) *h5gen.Type {
	return &h5gen.Type{Class: h5gen.Int, Size: size, Unsigned: uns, BE: be}
}
func HFloat(size int, be bool) *h5gen.Type {
	return &h5gen.Type{Class: h5gen.Float, Size: size, BE: be}
}
func HStr(size, pad int) *h5gen.Type { return &h5gen.Type{Class: h5gen.Str, Size: size, Pad: pad} }
func HVStr(utf bool) *h5gen.Type     { return &h5gen.Type{Class: h5gen.VStr, UTF8: utf} }
func HOpaque(n int) *h5gen.Type      { return &h5gen.Type{Class: h5gen.Opaque, Size: n, Tag: "tag"} }
func HArray(b *h5gen.Type, dims ...int) *h5gen.Type {
	return &h5gen.Type{Class: h5gen.Array, Base: b, Dims: dims}
}
func HVlen(b *h5gen.Type) *h5gen.Type { return &h5gen.Type{Class: h5gen.Vlen, Base: b} }
func HEnum(b *h5gen.Type, vals ...int64) *h5gen.Type {
	t := &h5gen.Type{Class: h5gen.Enum, Base: b}
	for i, v := range vals {
		t.Names = append(t.Names, fmt.Sprintf("E%d", i))
		t.Vals = append(t.Vals, v)
	}
	return t
}
func HComp(ms ...*h5gen.Type) *h5gen.Type {
	t := &h5gen.Type{Class: h5gen.Compound}
	for i, m := range ms {
		name := string(rune('a'+i%26)) + "name90"[:i%7]
		if i >= 26 {
			name = fmt.Sprintf("m%d", i)
		}
		t.Members = append(t.Members, h5gen.Member{Name: name, T: m, Off: -1})
	}
	return t
}

// HGaps is a compound with holes before, between and after its members.
func HGaps(lead, between, tail int, ms ...*h5gen.Type) *h5gen.Type {
	t := HComp(ms...)
	off := lead
	for i := range t.Members {
		t.Members[i].Off = off
		off += t.Members[i].T.MemSize() + between
	}
	t.Size = off - between + tail
	return t
}

// NumericH5 are all integer and float types of both byte orders.
func NumericH5() (ts []*h5gen.Type) {
	for _, be := range []bool{false, true} {
		for _, s := range []int{1, 2, 4, 8} {
			if be && s == 1 {
				continue
			}
			ts = append(ts, HInt(s, false, be), HInt(s, true, be))
		}
		ts = append(ts, HFloat(4, be), HFloat(8, be))
	}
	return
}

// BaseH5 are types usable as members and elements.
func BaseH5() []*h5gen.Type {
	ts := NumericH5()
	for pad := range 3 {
		for _, n := range []int{1, 2, 3, 8} {
			ts = append(ts, HStr(n, pad))
		}
	}
	u := HStr(5, 1)
	u.UTF8 = true
	ts = append(ts, u, HVStr(false), HVStr(true), &h5gen.Type{Class: h5gen.VStr, Pad: 1}, &h5gen.Type{Class: h5gen.VStr, Pad: 2})
	for _, b := range NumericH5() {
		if b.Class == h5gen.Int {
			if b.Unsigned {
				ts = append(ts, HEnum(b, 0, 1, 200))
			} else {
				ts = append(ts, HEnum(b, 0, -1, 100))
			}
		}
	}
	ts = append(ts, HEnum(HInt(1, false, false), 7))
	for _, n := range []int{1, 2, 3, 8, 13} {
		ts = append(ts, HOpaque(n))
	}
	return ts
}

// smallH5 is a short alphabet with every class of member.
func smallH5() []*h5gen.Type {
	return []*h5gen.Type{HInt(1, false, false), HInt(2, true, true), HInt(4, false, false), HFloat(8, false), HStr(3, 1), HVStr(false),
		HEnum(HInt(2, false, false), 5, -6), HOpaque(3), HArray(HInt(2, false, false), 2), HVlen(HInt(4, false, false))}
}

// UserH5 are the user-defined types.
func UserH5(thorough bool) (ts []*h5gen.Type) {
	base := BaseH5()
	small := smallH5()
	for _, b := range base {
		ts = append(ts, HComp(b), HVlen(b), HArray(b, 3))
	}
	for _, a := range small {
		for _, b := range small {
			ts = append(ts, HComp(a, b))
			if thorough {
				for _, c := range small {
					ts = append(ts, HComp(a, b, c))
				}
			}
		}
	}
	// layouts with holes
	for _, l := range []int{0, 1, 4} {
		for _, m := range []int{0, 1, 3} {
			for _, t := range []int{0, 1, 5} {
				ts = append(ts, HGaps(l, m, t, HInt(4, false, false), HInt(1, true, false), HFloat(8, true)))
				ts = append(ts, HGaps(l, m, t, HStr(3, 1), HOpaque(2)))
				ts = append(ts, HGaps(l, m, t, HArray(HInt(2, false, true), 2, 2), HInt(4, true, false)))
			}
		}
	}
	// members not in offset order
	rev := HComp(HInt(4, false, false), HInt(2, false, false), HInt(1, false, false))
	rev.Members[0].Off, rev.Members[1].Off, rev.Members[2].Off = 3, 1, 0
	ts = append(ts, rev)
	rev2 := HComp(HInt(2, false, false), HStr(3, 1), HInt(8, true, false))
	rev2.Members[0].Off, rev2.Members[1].Off, rev2.Members[2].Off = 8, 10, 0
	ts = append(ts, rev2)
	// arrays of every rank, and of every class
	for _, d := range [][]int{{1}, {2}, {2, 3}, {3, 1}, {2, 1, 3}, {2, 2, 2, 2}} {
		ts = append(ts, HArray(HInt(4, false, false), d...), HArray(HFloat(8, true), d...), HComp(HArray(HInt(2, true, false), d...), HInt(1, false, false)))
	}
	nested := []*h5gen.Type{
		HComp(HInt(4, false, false), HFloat(4, false)),
		HComp(HStr(2, 1), HVStr(false)),
		HGaps(1, 2, 3, HInt(2, false, false), HInt(8, false, false)),
		HArray(HInt(2, false, false), 2, 2),
		HVlen(HInt(2, false, false)),
		HVlen(HComp(HInt(1, false, false), HInt(4, false, false))),
		HArray(HComp(HInt(1, false, false), HInt(2, false, false)), 2),
		HComp(HVlen(HFloat(8, false)), HInt(1, false, false)),
		HComp(HArray(HVStr(false), 2), HInt(1, false, false)),
		HEnum(HInt(1, true, false), 1, 2),
	}
	for _, n := range nested {
		ts = append(ts, HComp(n), HComp(HInt(1, false, false), n, HInt(2, false, false)), HVlen(n), HArray(n, 2), HComp(HComp(n, HInt(4, false, false)), n),
			HVlen(HVlen(n)), HVlen(HArray(n, 2)), HComp(HArray(n, 2, 2)), HComp(HVlen(n), n), HArray(HVlen(n), 2))
		if n.Class != h5gen.Array {
			ts = append(ts, HArray(HComp(n, n), 1, 2))
		}
	}
	// big ones
	many := func(k int) *h5gen.Type {
		t := &h5gen.Type{Class: h5gen.Compound}
		for i := range k {
			t.Members = append(t.Members, h5gen.Member{Name: fmt.Sprintf("m%d", i), T: HInt(1+i%2, false, false), Off: -1})
		}
		return t
	}
	for _, k := range []int{4, 31, 254, 255, 256, 257, 300, 600} {
		ts = append(ts, many(k))
		t := &h5gen.Type{Class: h5gen.Enum, Base: HInt(2, false, false)}
		for i := range k {
			t.Names = append(t.Names, fmt.Sprintf("N%d", i))
			t.Vals = append(t.Vals, int64(i)*3-100)
		}
		ts = append(ts, t)
	}
	var ok []*h5gen.Type
	for _, t := range ts {
		if !refFails(t) {
			ok = append(ok, t)
		}
	}
	ts = ok
	for _, n := range []int{254, 255, 256, 65535, 65536, 70000} {
		ts = append(ts, HGaps(n-2-4, 0, 0, HInt(2, false, false)), HGaps(n, 0, 4, HInt(2, true, false)), HComp(HOpaque(min(n, 255)), HArray(HInt(1, true, false), n), HInt(4, false, false)), HComp(HStr(n, 1), HInt(1, false, false)), HStr(n, 1))
	}
	return ts
}

// refFails tells whether libhdf5 1.10 itself stores elements of a type wrongly:
// arrays of compounds of variable-length members, beyond the first element.
func refFails(t *h5gen.Type) bool {
	switch t.Class {
	case h5gen.Array:
		return t.Base.HasVlen() && hasCompVlen(t.Base) || refFails(t.Base)
	case h5gen.Vlen:
		return refFails(t.Base)
	case h5gen.Compound:
		for _, m := range t.Members {
			if refFails(m.T) {
				return true
			}
		}
	}
	return false
}

func hasCompVlen(t *h5gen.Type) bool {
	switch t.Class {
	case h5gen.Array, h5gen.Vlen:
		return hasCompVlen(t.Base)
	case h5gen.Compound:
		return t.HasVlen()
	}
	return false
}

// One returns a file of these items.
func One(libver int, items ...any) *h5gen.File { return one(libver, items...) }

func one(libver int, items ...any) *h5gen.File {
	return &h5gen.File{Libver: libver, Root: &h5gen.Group{Items: items}}
}

// H5Types enumerates datasets of every type, shape, layout and library version.
func H5Types(thorough bool, y YieldH5) {
	shapes := [][]int{nil, {1}, {3}, {2, 3}, {2, 1, 2}, {0}, {2, 0}, {0, 3}}
	all := append(BaseH5(), UserH5(thorough)...)
	for ti, t := range all {
		for _, sh := range shapes {
			for _, lay := range []byte{'C', 'K', 'H'} {
				if lay == 'H' && sh == nil {
					continue
				}
				empty := false
				for _, x := range sh {
					empty = empty || x == 0
				}
				if t.MemSize()*max(prodInt(sh), 1) > 60000 && lay == 'K' {
					continue
				}
				for _, lv := range []int{0, 1} {
					if lv == 1 && !thorough && (ti%3 != 0 && len(sh) != 1) {
						continue
					}
					d := &h5gen.Dataset{Name: "v", T: t, Shape: sh, Layout: lay, All: true, Salt: ti}
					if lay == 'H' {
						for i := range sh {
							d.Chunk = append(d.Chunk, max(1, (sh[i]+1)/2))
						}
						if empty {
							d.Max = make([]int, len(sh))
							for i := range d.Max {
								d.Max[i] = -1
							}
						}
						if ti%2 == 1 && !t.HasVlen() {
							d.Filters = "sdf"
						}
					}
					y(fmt.Sprintf("T libver%d %s", lv, d), func() *h5gen.File { return one(lv, d) })
				}
			}
		}
	}
}

func prodInt(s []int) int {
	n := 1
	for _, x := range s {
		n *= x
	}
	return n
}

// H5Attrs enumerates attributes of every type and shape, in compact and dense storage.
func H5Attrs(thorough bool, y YieldH5) {
	shapes := [][]int{nil, {1}, {3}, {2, 3}, {1, 1}, {1, 3}, {3, 1}, {0}, {0, 2}, {2, 0}, {-1}}
	for ti, t := range append(BaseH5(), UserH5(thorough)...) {
		for _, sh := range shapes {
			if t.MemSize()*prodInt(sh) > 60000 {
				continue
			}
			for _, dense := range []bool{false, true} {
				lv := 0
				if dense {
					lv = 1
					if msg := t.MemSize()*prodInt(sh) + 24*(len(t.Members)+len(t.Names)); msg > 3500 {
						continue // these become "huge" heap objects, which the reader says it doesn't support
					}
				}
				a := h5gen.Attr{Name: "at", T: t, Shape: sh, Salt: ti}
				if len(sh) > 0 && sh[0] < 0 {
					a.Shape, a.Null = nil, true
				}
				b := h5gen.Attr{Name: "second", T: HInt(4, false, false), Shape: []int{2}}
				y(fmt.Sprintf("A dense=%v %s", dense, a), func() *h5gen.File {
					d := &h5gen.Dataset{Name: "v", T: HInt(2, false, false), Shape: []int{2}, Layout: 'C', All: true, Attrs: []h5gen.Attr{a, b}, Track: dense}
					f := one(lv, d)
					if dense {
						d.Dense = 1
						f.Root.DenseA = true
					}
					f.Root.Track = dense
					f.Root.Attrs = []h5gen.Attr{a, b}
					return f
				})
			}
		}
	}
}

// filterOrders are all ordered subsets of the three filters.
func filterOrders() (r []string) {
	var rec func(cur, left string)
	rec = func(cur, left string) {
		r = append(r, cur)
		for i := range left {
			rec(cur+left[i:i+1], left[:i]+left[i+1:])
		}
	}
	rec("", "sdf")
	return
}

func boxes(rank, m int, f func(d []int)) {
	d := make([]int, rank)
	var rec func(i int)
	rec = func(i int) {
		if i == rank {
			f(append([]int{}, d...))
			return
		}
		for x := 1; x <= m; x++ {
			d[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

// chunkWindows are the windows covering each chunk of the dataset, clipped.
func chunkWindows(shape, chunk []int) (ws []h5gen.Window) {
	idx := make([]int, len(shape))
	var rec func(i int)
	rec = func(i int) {
		if i == len(shape) {
			w := h5gen.Window{}
			for k := range shape {
				s := idx[k] * chunk[k]
				w.Start = append(w.Start, s)
				w.Count = append(w.Count, min(chunk[k], shape[k]-s))
			}
			ws = append(ws, w)
			return
		}
		for x := 0; x*chunk[i] < shape[i]; x++ {
			idx[i] = x
			rec(i + 1)
		}
	}
	rec(0)
	return
}

// FillOf is a recognisable fill value of a type.
func FillOf(t *h5gen.Type) h5gen.Val { return t.Gen(4711) }

// H5Chunks enumerates the storage of arrays.
func H5Chunks(thorough bool, y YieldH5) {
	emit := func(kind string, lv, k int, d *h5gen.Dataset) {
		y(fmt.Sprintf("%s libver%d k%d %s", kind, lv, k, d), func() *h5gen.File {
			f := one(lv, d)
			f.IstoreK = k
			return f
		})
		// the newer form of the messages
		if lv == 0 && (kind == "F" || kind == "M" || kind == "R" || thorough && k == 0) {
			y(fmt.Sprintf("%s libver1 k%d %s", kind, k, d), func() *h5gen.File { return one(1, d) })
		}
	}
	i4 := HInt(4, false, false)
	// every shape and chunk shape
	lim := map[int]int{1: 8, 2: 5, 3: 4, 4: 2}
	if thorough {
		lim = map[int]int{1: 16, 2: 7, 3: 4, 4: 3}
	}
	for rank := 1; rank <= 4; rank++ {
		boxes(rank, lim[rank], func(sh []int) {
			boxes(rank, lim[rank], func(ch []int) {
				for i := range ch {
					if ch[i] > sh[i] {
						return
					}
				}
				f := ""
				if (ch[0]+sh[0])%3 == 0 {
					f = "sd"
				}
				emit("S", 0, 0, &h5gen.Dataset{Name: "v", T: i4, Shape: sh, Layout: 'H', Chunk: ch, All: true, Filters: f})
			})
		})
	}
	// rank 5 and 6
	for _, s := range [][2][]int{{{2, 3, 2, 3, 2}, {1, 2, 2, 2, 1}}, {{3, 2, 3, 2, 3}, {2, 1, 2, 1, 2}}, {{2, 2, 2, 2, 2, 3}, {1, 2, 1, 2, 1, 2}}, {{3, 3, 3, 3, 3}, {2, 2, 2, 2, 2}}} {
		emit("S", 0, 0, &h5gen.Dataset{Name: "v", T: i4, Shape: s[0], Layout: 'H', Chunk: s[1], All: true})
	}
	// higher ranks, up to the format's highest, in every layout
	for _, r := range []int{7, 8, 15, 16, 17, 31, 32} {
		for kind := range 3 {
			sh, ch := make([]int, r), make([]int, r)
			for i := range sh {
				sh[i], ch[i] = 1, 1
			}
			switch kind {
			case 0:
				sh[0], sh[r-1], ch[r-1] = 3, 5, 2
			case 1:
				sh[r/2], sh[r/2+1], ch[r/2] = 3, 5, 2
			case 2:
				for i := 0; i < r; i += max(1, r/6) {
					sh[i], ch[i] = 2, 1+i%2
				}
			}
			for i, t := range []*h5gen.Type{i4, HStr(3, 1), HFloat(8, true)} {
				emit("Q", i%2, 0, &h5gen.Dataset{Name: "v", T: t, Shape: sh, Layout: 'H', Chunk: ch, All: true, Filters: []string{"", "sdf", "d"}[i]})
				emit("Q", 1-i%2, 0, &h5gen.Dataset{Name: "v", T: t, Shape: sh, Layout: []byte{'C', 'K', 'C'}[i], All: true})
			}
		}
	}
	// chunks larger than the array, and arrays that grew or shrank
	for _, n := range []int{1, 2, 3, 5} {
		for _, c := range []int{1, 2, 3, 4, 7} {
			for _, r := range []int{0, 1, 2, 4, 6, 9} {
				d := &h5gen.Dataset{Name: "v", T: i4, Shape: []int{n}, Max: []int{-1}, Layout: 'H', Chunk: []int{c}, All: true}
				if r > 0 {
					d.Resize = []int{r}
				}
				emit("R", 0, 0, d)
				e := &h5gen.Dataset{Name: "v", T: HInt(2, true, true), Shape: []int{n, 3}, Max: []int{-1, -1}, Layout: 'H', Chunk: []int{c, 2}, All: true, Fill: h5gen.FillValue, Filters: "s"}
				e.FillV = FillOf(e.T)
				if r > 0 {
					e.Resize = []int{r, 1 + r%5}
				}
				emit("R", 0, 0, e)
			}
		}
	}
	// deep chunk indexes: 1 is the smallest number of entries a node may have (with which the
	// reference library itself fails from about 50 chunks)
	top := 40
	if thorough {
		top = 140
	}
	for _, k := range []int{1, 2, 3} {
		for n := 1; n <= top; n++ {
			if n > 12 && n%7 != 0 {
				continue
			}
			emit("B", 0, k, &h5gen.Dataset{Name: "v", T: HInt(2, false, false), Shape: []int{n * 2}, Layout: 'H', Chunk: []int{2}, All: true})
			emit("B", 0, k, &h5gen.Dataset{Name: "v", T: HInt(2, false, false), Shape: []int{n, 5}, Max: []int{-1, 5}, Layout: 'H', Chunk: []int{2, 2}, All: true, Filters: "sdf"})
		}
	}
	for _, k := range []int{0, 2, 5} {
		emit("B", 0, k, &h5gen.Dataset{Name: "v", T: HInt(2, false, false), Shape: []int{300}, Layout: 'H', Chunk: []int{1}, All: true})
		emit("B", 0, k, &h5gen.Dataset{Name: "v", T: HInt(8, false, false), Shape: []int{12, 13, 5}, Layout: 'H', Chunk: []int{2, 3, 2}, All: true})
	}
	if thorough {
		emit("B", 0, 0, &h5gen.Dataset{Name: "v", T: HInt(1, false, false), Shape: []int{9000}, Layout: 'H', Chunk: []int{1}, All: true})
	}
	// filters in every order over types of every size
	types := append(NumericH5(), HStr(3, 1), HOpaque(5), HComp(HInt(2, false, false), HInt(1, false, false), HFloat(8, false)), HEnum(HInt(2, true, false), 1, 2, 300), HArray(HInt(2, false, false), 3),
		HVStr(false), HVlen(HInt(2, false, false)))
	for _, fs := range filterOrders() {
		for _, t := range types {
			if t.HasVlen() && fs != "" {
				continue // refused by the reference library
			}
			for _, s := range [][2][]int{{{5}, {2}}, {{5}, {5}}, {{4, 3}, {3, 2}}, {{3, 2, 3}, {2, 2, 2}}} {
				emit("F", 0, 0, &h5gen.Dataset{Name: "v", T: t, Shape: s[0], Layout: 'H', Chunk: s[1], All: true, Filters: fs})
			}
		}
		// sizes around the checksum's block and word boundaries
		for _, n := range []int{1, 2, 3, 359, 360, 361, 720, 721, 1441, 40000} {
			emit("F", 0, 0, &h5gen.Dataset{Name: "v", T: HInt(1, true, false), Shape: []int{n}, Layout: 'H', Chunk: []int{n}, All: true, Filters: fs})
		}
	}
	// chunks that some of the filters were left out of
	for _, fs := range filterOrders() {
		for _, t := range []*h5gen.Type{HInt(1, true, false), i4, HFloat(8, true)} {
			for _, s := range [][2][]int{{{5}, {5}}, {{9}, {3}}, {{4, 5}, {3, 2}}} {
				for a := range 1 << len(fs) {
					for b := range 1 << len(fs) {
						if a|b != 0 {
							emit("M", 0, 0, &h5gen.Dataset{Name: "v", T: t, Shape: s[0], Layout: 'H', Chunk: s[1], All: true, Filters: fs, Masks: []int{a, b}})
						}
					}
				}
			}
		}
	}
	// every subset of chunks written
	fills := []h5gen.Fill{h5gen.FillDefault, h5gen.FillValue}
	for _, s := range [][2][]int{{{5}, {1}}, {{7}, {3}}, {{4, 3}, {2, 2}}, {{4, 4}, {1, 4}}, {{3, 4}, {3, 2}}, {{3, 2, 3}, {2, 2, 2}}, {{4, 2}, {1, 1}}} {
		ws := chunkWindows(s[0], s[1])
		for mask := 0; mask < 1<<len(ws); mask++ {
			for fi, fl := range fills {
				if !thorough && len(ws) > 5 && mask%3 != fi%3 {
					continue
				}
				for _, t := range []*h5gen.Type{i4, HFloat(8, true)} {
					d := &h5gen.Dataset{Name: "v", T: t, Shape: s[0], Layout: 'H', Chunk: s[1], Fill: fl, Windows: []h5gen.Window{}}
					if fl == h5gen.FillValue {
						d.FillV = FillOf(t)
					}
					if mask%2 == 1 {
						d.Filters = "d"
					}
					for i, w := range ws {
						if mask>>i&1 == 1 {
							d.Windows = append(d.Windows, w)
						}
					}
					emit("U", 0, 0, d)
				}
			}
		}
	}
	// every single window of small arrays, in every layout
	for _, sh := range [][]int{{4}, {3, 2}} {
		boxes(len(sh), 4, func(st []int) {
			boxes(len(sh), 4, func(ct []int) {
				w := h5gen.Window{}
				for i := range sh {
					if st[i]-1+ct[i] > sh[i] {
						return
					}
					w.Start = append(w.Start, st[i]-1)
					w.Count = append(w.Count, ct[i])
				}
				for _, lay := range []byte{'C', 'K', 'H'} {
					for _, fl := range fills {
						for _, early := range []bool{false, true} {
							d := &h5gen.Dataset{Name: "v", T: HInt(2, false, true), Shape: sh, Layout: lay, Fill: fl, Early: early, Windows: []h5gen.Window{w}}
							if fl == h5gen.FillValue {
								d.FillV = FillOf(d.T)
							}
							if lay == 'H' {
								for range sh {
									d.Chunk = append(d.Chunk, 2)
								}
							}
							emit("W", 0, 0, d)
						}
					}
				}
			})
		})
	}
}

// H5Fills enumerates data never written, for every type, layout and kind of fill value.
func H5Fills(thorough bool, y YieldH5) {
	types := append(BaseH5(), HComp(HInt(2, false, false), HFloat(8, false)), HComp(HStr(3, 1), HInt(1, false, false)), HArray(HInt(2, false, false), 3), HVlen(HInt(2, false, false)), HComp(HVStr(false), HInt(1, false, false)))
	for ti, t := range types {
		for _, sh := range [][]int{nil, {1}, {3}, {2, 3}} {
			for _, lay := range []byte{'C', 'K', 'H'} {
				if lay == 'H' && sh == nil {
					continue
				}
				for _, fl := range []h5gen.Fill{h5gen.FillDefault, h5gen.FillValue, h5gen.FillUndef} {
					if fl == h5gen.FillValue && t.HasVlen() {
						continue // the reference's own storage of such fill values is not read back by it
					}
					for _, early := range []bool{false, true} {
						for _, lv := range []int{0, 1} {
							if lv == 1 && ti%4 != 0 && !thorough {
								continue
							}
							if fl == h5gen.FillUndef && (lay == 'K' || early) {
								continue // stored but unspecified
							}
							d := &h5gen.Dataset{Name: "v", T: t, Shape: sh, Layout: lay, Fill: fl, Early: early, Windows: []h5gen.Window{}}
							if fl == h5gen.FillValue {
								d.FillV = FillOf(t)
							}
							if lay == 'H' {
								for range sh {
									d.Chunk = append(d.Chunk, 2)
								}
								d.Max = make([]int, len(sh))
								for i := range d.Max {
									d.Max[i] = -1
								}
							}
							y(fmt.Sprintf("N libver%d %s", lv, d), func() *h5gen.File { return one(lv, d) })
						}
					}
				}
			}
		}
	}
}
