package props

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/refnc"
)

func specModelAttrs(as []cdfspec.Attr) []model.Attr {
	var out []model.Attr
	for _, a := range as {
		out = append(out, model.Attr{Name: a.Name, Val: a.Value()})
	}
	return out
}

// checkSpec compares what the library shows of a file with the specification's reading of it.
func checkSpec(g api.Group, f *cdfspec.File) (bad string, calls int) {
	if p := obs.Safe(func() {
		calls++
		if want, got := model.AttrsDump(specModelAttrs(f.Attrs), false), obs.Attrs(g.Attributes(), false); want != got {
			bad = fmt.Sprintf("global attributes\n    want %s\n    got  %s", want, got)
			return
		}
		var names, dims []string
		for _, v := range f.Vars {
			names = append(names, v.Name)
		}
		for _, d := range f.Dims {
			dims = append(dims, d.Name)
		}
		calls += 3
		if a, b := fmt.Sprintf("%q", names), fmt.Sprintf("%q", g.ListVariables()); a != b {
			bad = fmt.Sprintf("variables: want %s got %s", a, b)
			return
		}
		if a, b := fmt.Sprintf("%q", dims), fmt.Sprintf("%q", g.ListDimensions()); a != b {
			bad = fmt.Sprintf("dimensions: want %s got %s", a, b)
			return
		}
		if n := len(g.ListSubgroups()) + len(g.ListTypes()); n != 0 {
			bad = "subgroups or types"
			return
		}
		for _, d := range f.Dims {
			want := uint64(d.Len) // 0 stands for unlimited
			calls++
			if n, has := g.GetDimension(d.Name); !has || n != want {
				bad = fmt.Sprintf("dimension %q: want %d got %d %v", d.Name, want, n, has)
				return
			}
		}
		for i := range f.Vars {
			v := &f.Vars[i]
			shape := f.Shape(v)
			want := obs.Render(cdfspec.Value(v.Type, v.Data, shape))
			calls += 3
			got, err := g.GetVariable(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVariable %q: %v", v.Name, err)
				return
			}
			if b := obs.Render(got.Values); want != b {
				bad = fmt.Sprintf("variable %q\n    want %s\n    got  %s", v.Name, clip(want), clip(b))
				return
			}
			at := model.AttrsDump(specModelAttrs(v.Attrs), false)
			if b := obs.Attrs(got.Attributes, false); at != b {
				bad = fmt.Sprintf("variable %q attributes\n    want %s\n    got  %s", v.Name, at, b)
				return
			}
			dn := []string{}
			for _, id := range v.DimIDs {
				dn = append(dn, f.Dims[id].Name)
			}
			if a, b := fmt.Sprintf("%q", dn), fmt.Sprintf("%q", got.Dimensions); a != b {
				bad = fmt.Sprintf("variable %q dimensions: want %s got %s", v.Name, a, b)
				return
			}
			vg, err := g.GetVarGetter(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVarGetter %q: %v", v.Name, err)
				return
			}
			wl := int64(1)
			if len(shape) > 0 {
				wl = shape[0]
			}
			t := cdfspec.GoType(v.Type)
			if a, b := fmt.Sprintln(shape, wl, t, model.CDL(t), dn), fmt.Sprintln(vg.Shape(), vg.Len(), vg.GoType(), vg.Type(), vg.Dimensions()); a != b {
				bad = fmt.Sprintf("variable %q shape, length, types, dimensions: want %s got %s", v.Name, a, b)
				return
			}
			vals, err := vg.Values()
			if err != nil {
				bad = fmt.Sprintf("Values %q: %v", v.Name, err)
				return
			}
			if b := obs.Render(vals); want != b {
				bad = fmt.Sprintf("variable %q Values\n    want %s\n    got  %s", v.Name, clip(want), clip(b))
				return
			}
		}
	}); p != "" {
		return p, calls
	}
	return bad, calls
}

// refMatches compares the reference library's reading with the specification's.
func refMatches(r *refnc.Group, f *cdfspec.File) string {
	formats := map[int]int{1: 1, 2: 2, 5: 5}
	if r.Format != formats[f.Version] {
		return fmt.Sprintf("format %d", r.Format)
	}
	if len(r.Dims) != len(f.Dims) || len(r.Vars) != len(f.Vars) {
		return "number of dimensions or variables"
	}
	for i, d := range f.Dims {
		n := d.Len
		if n == 0 {
			n = f.NumRecs
		}
		if r.Dims[i].Name != d.Name || r.Dims[i].Len != n || r.Dims[i].Unlim != (d.Len == 0) {
			return fmt.Sprintf("dimension %v, want %v", r.Dims[i], d)
		}
	}
	attrs := func(where string, as []refnc.Attr, bs []cdfspec.Attr) string {
		if len(as) != len(bs) {
			return where + ": number of attributes"
		}
		for i := range as {
			if as[i].Name != bs[i].Name || as[i].Type != bs[i].Type || as[i].N != bs[i].N || string(as[i].Raw) != string(bs[i].Data) {
				return fmt.Sprintf("%s: attribute %v, want %v", where, as[i], bs[i])
			}
		}
		return ""
	}
	if s := attrs("global", r.Attrs, f.Attrs); s != "" {
		return s
	}
	for i := range f.Vars {
		v, w := &f.Vars[i], r.Vars[i]
		if s := attrs(v.Name, w.Attrs, v.Attrs); s != "" {
			return s
		}
		if v.Name != w.Name || v.Type != w.Type || fmt.Sprint(f.Shape(v)) != fmt.Sprint(append([]int64{}, w.Shape...)) || string(v.Data) != string(w.Raw) {
			return fmt.Sprintf("variable %s %v %x, want %s %v %x", w.Name, w.Shape, w.Raw, v.Name, f.Shape(v), v.Data)
		}
	}
	return ""
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C03", Level: "model_checking",
		Rule: "every file of a bounded family of well-formed classic, 64-bit-offset and 64-bit-data files (made by an independent encoder of the format) is read through every call; the specification's reading is the model. Every file of the family is also read by netCDF-C, which validates the model's traces; files it reads differently would be reported as a broken check",
		Bounds: func(t string) string {
			return "versions 1,2,5; <=3 variables exhaustively over (type x fixed/record shape) alphabets; records 0..3 (thorough 0..7) and some hundreds; rank<=4 plus record dimension; attribute lists<=3 over all types x lengths 0..5; every place of the record dimension among 5; header gaps 0..8192; all 256 characters"
		},
		Assumptions: []string{"cdfspec encodes well-formed files (checked against netCDF-C on every case)"},
		Enumerate: func(tier string, y fw.Yield) {
			family.CDFFiles(tier == "thorough", func(desc string, mk func() (*cdfspec.File, cdfspec.Options)) {
				y(func() string { return desc }, func(c *fw.Ctx) {
					f, o := mk()
					b := cdfspec.Encode(f, o)
					// bind the model to the reference implementation
					path := filepath.Join(c.Dir, "r.nc")
					if err := os.WriteFile(path, b, 0o600); err != nil {
						panic(err)
					}
					r, err := refnc.Read(path)
					if err != nil {
						panic(fmt.Sprintf("CHECK BROKEN: netCDF-C does not read %s: %v", desc, err))
					}
					if s := refMatches(r, f); s != "" {
						panic(fmt.Sprintf("CHECK BROKEN: netCDF-C reads %s differently: %s", desc, s))
					}
					c.Note("files_also_read_by_netcdf_c", 1)
					var g api.Group
					if p := obs.Safe(func() { g, err = cdf.New(family.NewMem(b)) }); p != "" || err != nil {
						c.Failf("open: %v %s", err, p)
						return
					}
					bad, n := checkSpec(g, f)
					c.Trans(n)
					c.Trace(1)
					g.Close()
					if bad != "" {
						c.Failf("%s", bad)
						return
					}
					c.Sample(desc)
					c.Outcome(string(b))
				})
			})
		},
	})
}
