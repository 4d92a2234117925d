package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/refnc"
)

// cdfExpect is how a written variable reads back from a CDF file.
func cdfExpect(v model.Var) (val any, shape []int64) {
	sh := model.Shape(v.Vals)
	for _, n := range sh {
		shape = append(shape, int64(n))
	}
	val = v.Vals
	if model.ElemType(v.Vals) == model.StringType {
		m := model.MaxString(v.Vals)
		val = model.PadStrings(v.Vals, m)
		if !(len(sh) == 0 && m == 1 && len(v.Dims) == 0) {
			shape = append(shape, int64(m))
		}
	}
	return val, shape
}

// checkCDF compares everything a reader shows with the content written.
// It returns "" or what is wrong, and the number of calls it made.
func checkCDF(g api.Group, m *model.Group) (bad string, calls int) {
	if p := obs.Safe(func() {
		calls++
		if got, want := obs.Attrs(g.Attributes(), false), model.AttrsDump(m.Attrs, false); got != want {
			bad = fmt.Sprintf("global attributes\n    want %s\n    got  %s", want, got)
			return
		}
		names := []string{}
		for _, v := range m.Vars {
			names = append(names, v.Name)
		}
		calls++
		if got := g.ListVariables(); !(len(got) == 0 && len(names) == 0) && !reflect.DeepEqual(got, names) {
			bad = fmt.Sprintf("variables: want %q got %q", names, got)
			return
		}
		calls++
		if sg := g.ListSubgroups(); len(sg) != 0 {
			bad = fmt.Sprintf("subgroups %q", sg)
			return
		}
		// named dimensions, in order of first use among all dimensions
		wantDims := map[string]int64{}
		order := []string{}
		for _, v := range m.Vars {
			_, sh := cdfExpect(v)
			for i, d := range v.Dims {
				if d == "" || i >= len(sh) {
					continue
				}
				if _, has := wantDims[d]; !has {
					order = append(order, d)
				}
				wantDims[d] = sh[i]
			}
		}
		calls++
		gotOrder := []string{}
		for _, d := range g.ListDimensions() {
			calls++
			n, has := g.GetDimension(d)
			if !has {
				bad = fmt.Sprintf("listed dimension %q cannot be looked up", d)
				return
			}
			if want, named := wantDims[d]; named {
				gotOrder = append(gotOrder, d)
				if int64(n) != want {
					bad = fmt.Sprintf("dimension %q: want %d got %d", d, want, n)
					return
				}
			}
		}
		if fmt.Sprint(gotOrder) != fmt.Sprint(order) {
			bad = fmt.Sprintf("dimensions: want %q got %q", order, gotOrder)
			return
		}
		for _, v := range m.Vars {
			want, shape := cdfExpect(v)
			calls++
			got, err := g.GetVariable(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVariable %q: %v", v.Name, err)
				return
			}
			if a, b := obs.Render(want), obs.Render(got.Values); a != b {
				bad = fmt.Sprintf("variable %q\n    want %s\n    got  %s", v.Name, clip(a), clip(b))
				return
			}
			if a, b := model.AttrsDump(v.Attrs, false), obs.Attrs(got.Attributes, false); a != b {
				bad = fmt.Sprintf("variable %q attributes\n    want %s\n    got  %s", v.Name, a, b)
				return
			}
			if bad = dimsMatch(v.Name, v.Dims, len(shape), got.Dimensions); bad != "" {
				return
			}
			calls++
			vg, err := g.GetVarGetter(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVarGetter %q: %v", v.Name, err)
				return
			}
			if a, b := fmt.Sprint(shape), fmt.Sprint(vg.Shape()); a != b {
				bad = fmt.Sprintf("variable %q shape: want %s got %s", v.Name, a, b)
				return
			}
			wl := int64(1)
			if len(shape) > 0 {
				wl = shape[0]
			}
			if vg.Len() != wl {
				bad = fmt.Sprintf("variable %q length: want %d got %d", v.Name, wl, vg.Len())
				return
			}
			et := model.ElemType(v.Vals)
			if vg.Type() != model.CDL(et) || vg.GoType() != et.String() {
				bad = fmt.Sprintf("variable %q types: want %s %s got %s %s", v.Name, model.CDL(et), et, vg.Type(), vg.GoType())
				return
			}
		}
	}); p != "" {
		return p, calls
	}
	return bad, calls
}

func dimsMatch(name string, want []string, rank int, got []string) string {
	if len(got) != rank {
		return fmt.Sprintf("variable %q: %d dimension names %q, rank %d", name, len(got), got, rank)
	}
	for i, d := range want {
		if i < rank && d != "" && got[i] != d {
			return fmt.Sprintf("variable %q dimensions: want %q got %q", name, want, got)
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:350] + " ... " + s[len(s)-300:]
	}
	return s
}

func writeTo(c *fw.Ctx, kind netcdf.FileKind, g *model.Group) (path string, ok bool) {
	path = filepath.Join(c.Dir, "f.nc")
	n, problem := family.Write(path, kind, g)
	c.Trans(n)
	if problem != "" {
		c.Failf("valid content was not accepted or not written: %s", problem)
		return path, false
	}
	return path, true
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C01", Level: "model_checking",
		Rule: "every writer program of the bounded CDF family (package family, tags S E P T A D R N M L) is executed on the real writer and read back through every read call; the reference model is the program's own content",
		Bounds: func(t string) string {
			return "variables<=3 exhaustively over (type x shape) alphabets, rank<=6, extents<=5 (thorough 7), attribute lists<=3, dimension lists<=3 over 3 dims x pairs of variables, name lengths<=6 (thorough 9); a dimension of 2^31"
		},
		Assumptions: []string{"scratch file system stores what is written to it"},
		Enumerate: func(tier string, y fw.Yield) {
			largeCases(y, tier, false)
			family.CDFPrograms(tier == "thorough", func(desc func() string, mk func() *model.Group) {
				y(desc, func(c *fw.Ctx) {
					m := mk()
					path, ok := writeTo(c, netcdf.KindCDF, m)
					if !ok {
						return
					}
					var g api.Group
					var err error
					if p := obs.Safe(func() { g, err = netcdf.Open(path) }); p != "" || err != nil {
						c.Failf("open: %v %s", err, p)
						return
					}
					bad, n := checkCDF(g, m)
					c.Trans(n)
					c.Trace(1)
					g.Close()
					if bad != "" {
						c.Failf("%s", bad)
						return
					}
					c.Sample(desc())
					b, _ := os.ReadFile(path)
					c.Outcome(string(b))
				})
			})
		},
	})
	fw.Register(&fw.Prop{
		ID: "C02", Level: "model_checking",
		Rule: "the bytes of every file of the bounded CDF family are decoded by a strict independent decoder of the published format and compared with the content given to the writer",
		Bounds: func(t string) string {
			return "as C01; every file also read by the reference netCDF-C library; files with a dimension of 2^31 and a variable of 2^32 bytes, and of one less"
		},
		Assumptions: []string{"cdfspec is a faithful reading of the format specification (bound to libnetcdf, see C03)"},
		Enumerate: func(tier string, y fw.Yield) {
			largeCases(y, tier, true)
			family.CDFPrograms(tier == "thorough", func(desc func() string, mk func() *model.Group) {
				y(desc, func(c *fw.Ctx) {
					m := mk()
					path, ok := writeTo(c, netcdf.KindCDF, m)
					if !ok {
						return
					}
					b, err := os.ReadFile(path)
					if err != nil {
						panic(err)
					}
					f, err := cdfspec.Decode(b)
					if err != nil {
						c.Failf("not a well-formed classic-family file: %v", err)
						return
					}
					c.Trace(1)
					if bad := specMatches(f, m); bad != "" {
						c.Failf("decoded content differs: %s", bad)
						return
					}
					// what the reference library makes of the same bytes
					r, err := refnc.Read(path)
					if err != nil {
						c.Failf("netCDF-C does not read the file: %v", err)
						return
					}
					if s := refMatches(r, f); s != "" {
						c.Failf("netCDF-C reads the file differently: %s", s)
						return
					}
					c.Note("files_also_read_by_netcdf_c", 1)
					c.Sample(desc())
					c.Outcome(string(b))
				})
			})
		},
	})
}

func specAttrs(where string, as []cdfspec.Attr, want []model.Attr) string {
	if len(as) != len(want) {
		return fmt.Sprintf("%s: %d attributes, want %d", where, len(as), len(want))
	}
	for i, a := range as {
		w := cdfspec.MakeAttr(want[i].Name, want[i].Val)
		if a.Name != w.Name || a.Type != w.Type || a.N != w.N || string(a.Data) != string(w.Data) {
			return fmt.Sprintf("%s: attribute %d is %q type %d n %d %x, want %q type %d n %d %x", where, i, a.Name, a.Type, a.N, a.Data, w.Name, w.Type, w.N, w.Data)
		}
	}
	return ""
}

// specMatches compares an independently decoded file with the content written.
func specMatches(f *cdfspec.File, m *model.Group) string {
	needs5 := false
	chk := func(v any) {
		if v == nil {
			return
		}
		if cdfspec.Code(model.ElemType(v)) > cdfspec.Double {
			needs5 = true
		}
	}
	for _, a := range m.Attrs {
		chk(a.Val)
	}
	for _, v := range m.Vars {
		chk(v.Vals)
		for _, a := range v.Attrs {
			chk(a.Val)
		}
	}
	if needs5 && f.Version != 5 {
		return fmt.Sprintf("version %d for 64-bit-data content", f.Version)
	}
	if !needs5 && f.Version == 5 {
		// allowed by the format, but not what the content needs; not judged
	}
	if s := specAttrs("global", f.Attrs, m.Attrs); s != "" {
		return s
	}
	if len(f.Vars) != len(m.Vars) {
		return fmt.Sprintf("%d variables, want %d", len(f.Vars), len(m.Vars))
	}
	for i := range f.Vars {
		fv, mv := &f.Vars[i], m.Vars[i]
		if fv.Name != mv.Name {
			return fmt.Sprintf("variable %d is %q, want %q", i, fv.Name, mv.Name)
		}
		if s := specAttrs("variable "+fv.Name, fv.Attrs, mv.Attrs); s != "" {
			return s
		}
		want, shape := cdfExpect(mv)
		if fv.Type != cdfspec.Code(model.ElemType(mv.Vals)) {
			return fmt.Sprintf("variable %q has type %d", fv.Name, fv.Type)
		}
		if a, b := fmt.Sprint(f.Shape(fv)), fmt.Sprint(append([]int64{}, shape...)); a != b {
			return fmt.Sprintf("variable %q has shape %s, want %s", fv.Name, a, b)
		}
		for k, id := range fv.DimIDs {
			if k < len(mv.Dims) && mv.Dims[k] != "" && f.Dims[id].Name != mv.Dims[k] {
				return fmt.Sprintf("variable %q dimension %d is %q, want %q", fv.Name, k, f.Dims[id].Name, mv.Dims[k])
			}
		}
		if string(fv.Data) != string(cdfspec.Raw(want)) {
			return fmt.Sprintf("variable %q data %x, want %x", fv.Name, fv.Data, cdfspec.Raw(want))
		}
	}
	return ""
}
