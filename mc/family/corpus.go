package family

import (
	"fmt"
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
)

// Sample is one small well-formed file of the corpus.
type Sample struct {
	Name string
	CDF  bool
	Own  bool // from this library's writer
	Make func(dir string) []byte
}

func named(n string, t *h5gen.Type) *h5gen.Type { c := *t; c.Named = n; return &c }

// Corpus is a diverse set of small files of every format, version, type, storage layout and
// metadata structure. The first ones are the smallest and most important.
func Corpus() (out []Sample) {
	i2, i4, f8 := HInt(2, false, false), HInt(4, false, false), HFloat(8, false)
	u1 := HInt(1, true, false)
	// classic family
	for _, version := range []int{1, 2, 5} {
		vs := []VSpec{{Type: cdfspec.Int, Rec: true, Inner: []int64{2}}, {Type: cdfspec.Char, Inner: []int64{3}}, {Type: cdfspec.Byte, Rec: true, Inner: []int64{3}}, {Type: cdfspec.Double}}
		if version == 5 {
			vs = append(vs, VSpec{Type: cdfspec.UInt64, Inner: []int64{2}}, VSpec{Type: cdfspec.UByte, Rec: true})
		}
		out = append(out, Sample{Name: fmt.Sprintf("cdf%d", version), CDF: true, Make: func(string) []byte {
			f := MakeFile(version, 3, vs)
			f.Vars[0].Attrs = []cdfspec.Attr{{Name: "units", Type: cdfspec.Char, N: 3, Data: []byte("m/s")}, {Name: "_FillValue", Type: cdfspec.Int, N: 1, Data: []byte{0, 0, 0, 9}}}
			f.Attrs = []cdfspec.Attr{{Name: "title", Type: cdfspec.Char, N: 5, Data: []byte("hello")}, {Name: "r", Type: cdfspec.Short, N: 3, Data: []byte{0, 1, 0, 2, 0, 3}}}
			return cdfspec.Encode(f, cdfspec.Options{})
		}})
	}
	out = append(out, Sample{Name: "cdf1 one record variable", CDF: true, Make: func(string) []byte {
		return cdfspec.Encode(MakeFile(1, 3, []VSpec{{Type: cdfspec.Short, Rec: true, Inner: []int64{3}}}), cdfspec.Options{})
	}}, Sample{Name: "cdf empty", CDF: true, Make: func(string) []byte {
		return cdfspec.Encode(&cdfspec.File{Version: 1}, cdfspec.Options{})
	}})
	own := func(name string, kind netcdf.FileKind, mk func() *model.Group) {
		out = append(out, Sample{Name: name, CDF: kind == netcdf.KindCDF, Own: true, Make: func(dir string) []byte {
			b, _, p := Bytes(dir, kind, mk())
			if p != "" {
				panic("CHECK BROKEN: corpus " + name + ": " + p)
			}
			return b
		}})
	}
	two := func() *model.Group {
		at := []model.Attr{{Name: "units", Val: "m/s"}, {Name: "n", Val: []int16{7, 8}}}
		return &model.Group{Attrs: at, Vars: []model.Var{
			{Name: "v", Vals: model.Make(reflect.TypeFor[int32](), []int{3, 2}, 1), Dims: []string{"y", "x"}, Attrs: at},
			{Name: "x", Vals: []float64{1, 2.5}, Dims: []string{"x"}}, {Name: "s", Vals: "text"}}}
	}
	own("cdf own", netcdf.KindCDF, two)
	own("hdf5 own", netcdf.KindHDF5, func() *model.Group {
		m := two()
		m.Vars = append(m.Vars, model.Var{Name: "strs", Vals: []string{"a", "bcd"}, Dims: []string{"x"}})
		m.Groups = []*model.Group{{Name: "g", Attrs: []model.Attr{{Name: "a", Val: []string{"p", "q"}}}, Vars: []model.Var{{Name: "v", Vals: int8(5), Dims: nil}, {Name: "vl", Vals: [][]int16{{1}, {2, 3}}, Dims: []string{"x"}}},
			Groups: []*model.Group{{Name: "h", Vars: []model.Var{{Name: "w", Vals: []uint64{9}, Dims: []string{"z"}}}}}}}
		return m
	})
	// libhdf5
	h5 := func(name string, f func() *h5gen.File) {
		out = append(out, Sample{Name: name, Make: func(dir string) []byte {
			b, err := h5gen.Bytes(dir, f())
			if err != nil {
				panic("CHECK BROKEN: corpus " + name + ": " + err.Error())
			}
			return b
		}})
	}
	at := func(t *h5gen.Type, shape ...int) h5gen.Attr { return h5gen.Attr{Name: "a", T: t, Shape: shape} }
	for lv := range 2 {
		l := fmt.Sprintf("hdf5 v%d ", lv)
		h5(l+"contiguous", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "v", T: i4, Shape: []int{3, 2}, Layout: 'C', All: true, Attrs: []h5gen.Attr{at(f8, 2)}})
		})
		h5(l+"compact", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "v", T: i2, Shape: []int{5}, Layout: 'K', All: true}, &h5gen.Dataset{Name: "s", T: f8, Layout: 'K', All: true})
		})
		h5(l+"chunked", func() *h5gen.File {
			d := &h5gen.Dataset{Name: "v", T: i4, Shape: []int{3, 5}, Layout: 'H', Chunk: []int{2, 2}, Fill: h5gen.FillValue, Windows: []h5gen.Window{{Start: []int{0, 0}, Count: []int{2, 5}}}}
			d.FillV = FillOf(i4)
			return one(lv, d)
		})
		h5(l+"filters", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "v", T: i4, Shape: []int{7}, Layout: 'H', Chunk: []int{3}, All: true, Filters: "sdf"})
		})
		h5(l+"fletcher", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "v", T: i2, Shape: []int{2, 5}, Layout: 'H', Chunk: []int{1, 3}, All: true, Filters: "f"})
		})
		h5(l+"strings", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "v", T: HVStr(false), Shape: []int{3}, Layout: 'C', All: true, Attrs: []h5gen.Attr{at(HVStr(true)), {Name: "f", T: HStr(4, 1), Shape: []int{2}}}})
		})
		h5(l+"compound", func() *h5gen.File {
			t := HComp(i2, HArray(u1, 2), HStr(3, 0), HComp(f8, HInt(4, true, true)))
			return one(lv, &h5gen.Dataset{Name: "v", T: t, Shape: []int{2}, Layout: 'C', All: true, Attrs: []h5gen.Attr{at(t)}})
		})
		h5(l+"vlen", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "v", T: HVlen(i2), Shape: []int{3}, Layout: 'C', All: true, Attrs: []h5gen.Attr{at(HVlen(f8), 2)}})
		})
		h5(l+"enum opaque", func() *h5gen.File {
			return one(lv, &h5gen.Dataset{Name: "e", T: HEnum(u1, 0, 1, 5), Shape: []int{2}, Layout: 'C', All: true, Attrs: []h5gen.Attr{at(HEnum(i2, 1, 300), 2)}},
				&h5gen.Dataset{Name: "o", T: HOpaque(3), Shape: []int{2}, Layout: 'C', All: true})
		})
		h5(l+"groups", func() *h5gen.File {
			f := one(lv)
			leaf := func(s int) *h5gen.Dataset {
				return &h5gen.Dataset{Name: "v", T: i2, Shape: []int{2}, Layout: 'C', All: true, Salt: s}
			}
			f.Root.Items = []any{&h5gen.Group{Name: "b", Items: []any{leaf(1), &h5gen.Group{Name: "a", Items: []any{leaf(2)}}}}, &h5gen.Group{Name: "a", Items: []any{&h5gen.Group{Name: "b"}}, Attrs: []h5gen.Attr{at(i4, 2)}}, leaf(3)}
			return f
		})
	}
	h5("hdf5 committed types", func() *h5gen.File {
		t := named("t", HComp(i2, f8))
		e := named("e", HEnum(u1, 0, 1))
		// (datasets that refer to a committed type are not supported)
		return one(0, t, e, &h5gen.Dataset{Name: "v", T: HComp(i2, f8), Shape: []int{2}, Layout: 'C', All: true})
	})
	h5("hdf5 dense attributes", func() *h5gen.File {
		d := &h5gen.Dataset{Name: "v", T: i2, Shape: []int{2}, Layout: 'C', All: true, Track: true, Dense: 2}
		for _, n := range []string{"z", "b", "y", "a", "m"} {
			d.Attrs = append(d.Attrs, h5gen.Attr{Name: n, T: i4, Shape: []int{2}, Salt: int(n[0])})
		}
		return one(1, d)
	})
	h5("hdf5 dense links", func() *h5gen.File {
		f := one(1)
		f.Root.Track, f.Root.Dense = true, true
		for _, n := range []string{"z", "b", "y", "a"} {
			f.Root.Items = append(f.Root.Items, &h5gen.Dataset{Name: n, T: i2, Shape: []int{2}, Layout: 'C', All: true, Salt: int(n[0])})
		}
		f.Root.Items = append(f.Root.Items, &h5gen.Group{Name: "g", Track: true, Items: []any{&h5gen.Dataset{Name: "v", T: i2, Layout: 'C', All: true}}})
		return f
	})
	h5("hdf5 tracked links", func() *h5gen.File {
		f := one(1)
		f.Root.Track = true
		for _, n := range []string{"z", "b", "y", "a"} {
			f.Root.Items = append(f.Root.Items, &h5gen.Dataset{Name: n, T: i2, Layout: 'C', All: true, Salt: int(n[0]), Track: true,
				Attrs: []h5gen.Attr{{Name: "z", T: i2}, {Name: "c", T: i2}, {Name: "k", T: i2}}})
		}
		for _, n := range []string{"y2", "x2", "b2"} {
			f.Root.Items = append(f.Root.Items, &h5gen.Group{Name: n})
		}
		f.Root.Attrs = []h5gen.Attr{{Name: "z", T: i2}, {Name: "c", T: i2}, {Name: "k", T: i2}}
		return f
	})
	h5("hdf5 symbol table", func() *h5gen.File {
		f := one(0)
		for i := range 12 {
			f.Root.Items = append(f.Root.Items, &h5gen.Dataset{Name: fmt.Sprintf("v%d", (i*5)%12), T: i2, Layout: 'C', All: true, Salt: i})
		}
		return f
	})
	// netCDF-4
	nc := func(name string, f func() *h5gen.NC) {
		out = append(out, Sample{Name: name, Make: func(dir string) []byte {
			b, err := h5gen.NCBytes(dir, f())
			if err != nil {
				panic("CHECK BROKEN: corpus " + name + ": " + err.Error())
			}
			return b
		}})
	}
	nc("nc4", func() *h5gen.NC {
		return &h5gen.NC{Root: &h5gen.NCGroup{
			Dims:  []h5gen.NCDim{{Name: "x", Len: 3}, {Name: "t", Len: 2, Unlim: true}, {Name: "y", Len: 2}},
			Attrs: []h5gen.Attr{{Name: "title", T: HStr(7, 0)}, {Name: "a", T: f8, Shape: []int{2}}},
			Vars: []*h5gen.NCVar{
				{Name: "v", T: i4, Dims: []string{"t", "x"}, Shape: []int{2, 3}, All: true, Attrs: []h5gen.Attr{{Name: "units", T: HStr(3, 0)}}},
				{Name: "x", T: f8, Dims: []string{"x"}, Shape: []int{3}, All: true},
				{Name: "c", T: HStr(1, 0), Dims: []string{"y", "x"}, Shape: []int{2, 3}, All: true},
				{Name: "sv", T: HVStr(false), Dims: []string{"y"}, Shape: []int{2}, All: true},
				{Name: "un", T: i4, Dims: []string{"x"}, Shape: []int{3}},
			},
			Groups: []*h5gen.NCGroup{{Name: "zg", Dims: []h5gen.NCDim{{Name: "x", Len: 5}}, Vars: []*h5gen.NCVar{{Name: "q", T: i4, Dims: []string{"x", "y"}, Shape: []int{5, 2}, All: true}}}, {Name: "ag"}},
		}}
	})
	nc("nc4 types", func() *h5gen.NC {
		comp, en, op, vl := named("cmp_t", HComp(i4, f8)), named("en_t", HEnum(HInt(1, false, false), 0, 1, 2)), named("op_t", HOpaque(5)), named("vl_t", HVlen(i4))
		return &h5gen.NC{Root: &h5gen.NCGroup{
			Types: []*h5gen.Type{comp, en, op, vl},
			Dims:  []h5gen.NCDim{{Name: "x", Len: 2}},
			Vars: []*h5gen.NCVar{
				{Name: "vc", T: comp, Dims: []string{"x"}, Shape: []int{2}, All: true},
				{Name: "ve", T: en, Dims: []string{"x"}, Shape: []int{2}, All: true},
				{Name: "vo", T: op, Dims: []string{"x"}, Shape: []int{2}, All: true},
				{Name: "vv", T: vl, Dims: []string{"x"}, Shape: []int{2}, All: true},
			},
		}}
	})
	nc("nc4 classic model", func() *h5gen.NC {
		return &h5gen.NC{Classic: true, Root: &h5gen.NCGroup{
			Dims: []h5gen.NCDim{{Name: "t", Len: 2, Unlim: true}, {Name: "x", Len: 3}},
			Vars: []*h5gen.NCVar{
				{Name: "t", T: f8, Dims: []string{"t"}, Shape: []int{2}, All: true},
				{Name: "v", T: i2, Dims: []string{"t", "x"}, Shape: []int{2, 3}, All: true, Filters: "sd"}},
		}}
	})
	return out
}
