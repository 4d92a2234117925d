package props

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"regexp"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

var atoms = regexp.MustCompile(`"[^"]*"|[-+]?[0-9][-+0-9a-fx.]*`)

// shapeOf erases the values of a rendering.
func shapeOf(s string) string { return atoms.ReplaceAllString(s, "#") }

// checkUndef: nothing is promised of the values of a dataset whose fill value is
// declared undefined, but its shape and type are.
func checkUndef(c *fw.Ctx, g api.Group, d *h5gen.Dataset) string {
	want := shapeOf(norm(d.Want()))
	bad := ""
	if p := obs.Safe(func() {
		c.Trans(2)
		v, err := g.GetVariable(d.Name)
		if err != nil {
			bad = err.Error()
			return
		}
		if d.T.Class == h5gen.Vlen || d.T.HasVlen() {
			return
		}
		if r := shapeOf(norm(v.Values)); d.T.Class != h5gen.Str && r != want {
			bad = fmt.Sprintf("want %s got %s", clip(want), clip(r))
		}
	}); p != "" {
		return p
	}
	return bad
}

// rawOf gives the big-endian bytes of numeric values, and of strings padded to n.
func rawOf(v any, n int64) []byte {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Slice:
		var b []byte
		for i := range rv.Len() {
			b = append(b, rawOf(rv.Index(i).Interface(), n)...)
		}
		return b
	case reflect.String:
		b := make([]byte, n)
		copy(b, rv.String())
		return b
	}
	return cdfspec.Raw(v)
}

// cdfUnstored enumerates CDF files of which the end is not stored.
func cdfUnstored(tier string, y fw.Yield) {
	type tc struct {
		vs   []family.VSpec
		recs int64
	}
	for _, ver := range []int{1, 2, 5} {
		types := family.TypesOf(ver)
		var cases []tc
		for _, t := range types {
			fills := [][]cdfspec.Attr{nil, {{Name: "_FillValue", Type: t, N: 1, Data: fillPattern(t)}}, {{Name: "_FillValue", Type: t, N: 1, Data: make([]byte, cdfspec.Size(t))}},
				{{Name: "missing_value", Type: t, N: 1, Data: fillPattern(t)}}}
			for fi, at := range fills {
				for _, in := range [][]int64{nil, {1}, {3}, {2, 3}, {2, 2, 2}} {
					cases = append(cases, tc{[]family.VSpec{{Type: t, Inner: in, Attrs: at}}, 0})
					cases = append(cases, tc{[]family.VSpec{{Type: t, Rec: true, Inner: in, Attrs: at}}, 3})
					if fi < 2 {
						cases = append(cases, tc{[]family.VSpec{{Type: t, Rec: true, Inner: in, Attrs: at}, {Type: 5, Rec: true, Inner: []int64{2}}}, 3})
						cases = append(cases, tc{[]family.VSpec{{Type: 3, Inner: []int64{3}}, {Type: t, Rec: true, Inner: in, Attrs: at}, {Type: 2, Rec: true}}, 2})
					}
				}
			}
		}
		if tier == "thorough" {
			for _, a := range types {
				for _, b := range types {
					at := []cdfspec.Attr{{Name: "x", Type: 2, N: 2, Data: []byte("ab")}, {Name: "_FillValue", Type: a, N: 1, Data: fillPattern(a)}}
					cases = append(cases, tc{[]family.VSpec{{Type: a, Rec: true, Inner: []int64{3}, Attrs: at}, {Type: b, Rec: true, Inner: []int64{2}}, {Type: a, Inner: []int64{2}}}, 4})
				}
			}
		}
		for _, k := range cases {
			f := family.MakeFile(ver, k.recs, k.vs)
			y(func() string { return fmt.Sprintf("cdf%d recs=%d %v %v", ver, k.recs, k.vs, len(k.vs[0].Attrs)) }, func(c *fw.Ctx) { checkUnstored(c, f) })
		}
	}
}

func fillPattern(t int) []byte {
	b := make([]byte, cdfspec.Size(t))
	for i := range b {
		b[i] = byte(0x41 + i*0x13)
	}
	return b
}

// checkUnstored cuts the file at every place of its data.
func checkUnstored(c *fw.Ctx, f *cdfspec.File) {
	whole := cdfspec.Encode(f, cdfspec.Options{})
	first := len(whole)
	for _, v := range f.Vars {
		first = min(first, int(v.Begin))
	}
	for cut := first; cut <= len(whole); cut++ {
		var g api.Group
		var err error
		if p := obs.Safe(func() { g, err = cdf.New(family.NewMem(whole[:cut:cut])) }); p != "" || err != nil {
			c.Failf("cut at %d of %d: open: %v %s", cut, len(whole), err, p)
			return
		}
		for i := range f.Vars {
			v := &f.Vars[i]
			shape := f.Shape(v)
			n := int64(1)
			if len(shape) > 0 {
				n = shape[len(shape)-1]
			}
			size := int64(cdfspec.Size(v.Type))
			fill := cdfspec.FillBytes(v.Type)
			for _, a := range v.Attrs {
				if a.Name == "_FillValue" {
					fill = a.Data
				}
			}
			// what is expected of each element: stored, fill, or (cut in the middle) anything
			want := append([]byte{}, v.Data...)
			partial := int64(-1)
			for e := int64(0); e*size < int64(len(want)); e++ {
				at := f.ElemOffset(v, e)
				switch {
				case at+size <= int64(cut):
				case at >= int64(cut):
					copy(want[e*size:], fill)
				default:
					partial = e
				}
			}
			compare := func(what string, got any, want []byte, partial int64) bool {
				raw := rawOf(got, n)
				if v.Type == 2 {
					// texts end where only NULs follow
					want = rawOf(cdfspec.Value(2, want, shape), n)
				}
				if partial >= 0 && int64(len(raw)) == int64(len(want)) {
					copy(raw[partial*size:(partial+1)*size], want[partial*size:])
				}
				if string(raw) != string(want) {
					c.Failf("file cut at %d of %d (data begins at %d): %s %s: want %s got %s", cut, len(whole), first, v.Name, what, clip(hex.EncodeToString(want)), clip(hex.EncodeToString(raw)))
					return false
				}
				return true
			}
			bad := false
			if p := obs.Safe(func() {
				c.Trans(2)
				got, err := g.GetVariable(v.Name)
				if err != nil {
					c.Failf("file cut at %d of %d: %s: %v", cut, len(whole), v.Name, err)
					bad = true
					return
				}
				if !compare("GetVariable", got.Values, want, partial) {
					bad = true
					return
				}
				if len(shape) == 0 || v.Type == 2 {
					return
				}
				vg, err := g.GetVarGetter(v.Name)
				if err != nil {
					c.Failf("GetVarGetter: %v", err)
					bad = true
					return
				}
				row := int64(len(want)) / shape[0]
				for b := int64(0); b < shape[0]; b++ {
					c.Trans(1)
					s, err := vg.GetSlice(b, b+1)
					if err != nil {
						c.Failf("file cut at %d of %d: %s slice %d: %v", cut, len(whole), v.Name, b, err)
						bad = true
						return
					}
					pe := int64(-1)
					if partial >= 0 && partial*size/row == b {
						pe = partial - b*row/size
					}
					if !compare(fmt.Sprintf("GetSlice(%d,%d)", b, b+1), s, want[b*row:(b+1)*row], pe) {
						bad = true
						return
					}
				}
			}); p != "" {
				c.Failf("file cut at %d of %d: %s: %s", cut, len(whole), v.Name, p)
				bad = true
			}
			if bad {
				return
			}
		}
		g.Close()
		c.Trace(1)
		c.State(1)
	}
	c.Sample(c.Desc)
	c.Outcome(string(whole))
}

func init() {
	fw.Register(&fw.Prop{ID: "C19", Level: "model_checking",
		Rule: "HDF5: every dataset of a bounded family of types, layouts, allocation times and kinds of fill value of which nothing or some part is written (by libhdf5) is read; the model is the declared fill value, or zeros by default. CDF: every file of a bounded family is cut at every byte of its data and read whole and row by row; the model is the stored element or the declared or default fill value (an element cut in its middle may be anything)",
		Bounds: func(string) string {
			return "HDF5: 47 types x 4 shapes x 3 layouts x early/late x default/declared/undefined fill; every subset of written chunks of 7 chunked arrays and every window of two arrays. CDF: 3 versions x all types x 4 kinds of fill attribute x 5 shapes x (fixed, record, two and three variables), every cut"
		},
		Assumptions: []string{"libhdf5 1.10 stores the fill values it is given", "the values of data with an undefined fill value are unspecified; their shape and type are checked"},
		Enumerate: func(tier string, y fw.Yield) {
			h5 := func(desc string, mk func() *h5gen.File) {
				y(func() string { return desc }, func(c *fw.Ctx) {
					f := mk()
					d := f.Root.Items[0].(*h5gen.Dataset)
					if d.Fill != h5gen.FillUndef {
						checkH5(c, f)
						return
					}
					g, b := openH5(c, f)
					if g == nil {
						return
					}
					if bad := checkUndef(c, g, d); bad != "" {
						c.Failf("undefined fill value: %s", bad)
					}
					g.Close()
					c.Trace(1)
					c.Outcome(string(b))
				})
			}
			family.H5Fills(tier == "thorough", h5)
			family.H5Chunks(tier == "thorough", func(desc string, mk func() *h5gen.File) {
				if desc[0] == 'U' || desc[0] == 'W' || desc[0] == 'R' {
					h5(desc, mk)
				}
			})
			cdfUnstored(tier, y)
		}})
}
