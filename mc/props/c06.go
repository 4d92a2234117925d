package props

import (
	"fmt"
	"slices"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/damage"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// openH5 has the reference library make the file and opens it.
func openH5(c *fw.Ctx, f *h5gen.File) (api.Group, []byte) {
	b, err := h5gen.Bytes(c.Dir, f)
	if err != nil {
		panic("CHECK BROKEN: " + c.Desc + ": " + err.Error())
	}
	var g api.Group
	if p := obs.Safe(func() { g, err = hdf5.New(family.NewMem(b)) }); p != "" || err != nil {
		c.Failf("open: %v %s", err, p)
		return nil, b
	}
	return g, b
}

func norm(v any) string { return h5gen.Norm(obs.Render(v)) }

// checkDataset compares everything about one dataset.
func checkDataset(c *fw.Ctx, g api.Group, d *h5gen.Dataset) string {
	want := norm(d.Want())
	var bad string
	if p := obs.Safe(func() {
		c.Trans(3)
		v, err := g.GetVariable(d.Name)
		if err != nil {
			bad = fmt.Sprintf("GetVariable: %v", err)
			return
		}
		if r := norm(v.Values); r != want {
			bad = fmt.Sprintf("value\n    want %s\n    got  %s", clip(want), clip(r))
			return
		}
		if bad = checkAttrs(v.Attributes, d.Attrs); bad != "" {
			return
		}
		vg, err := g.GetVarGetter(d.Name)
		if err != nil {
			bad = fmt.Sprintf("GetVarGetter: %v", err)
			return
		}
		vals, err := vg.Values()
		if err != nil {
			bad = fmt.Sprintf("Values: %v", err)
			return
		}
		if r := norm(vals); r != want {
			bad = fmt.Sprintf("getter's value\n    want %s\n    got  %s", clip(want), clip(r))
			return
		}
		bad = checkAttrs(vg.Attributes(), d.Attrs)
	}); p != "" {
		return p
	}
	return bad
}

func checkAttrs(am api.AttributeMap, as []h5gen.Attr) string {
	as = slices.DeleteFunc(slices.Clone(as), func(a h5gen.Attr) bool { return a.Del || a.Gone })
	ks := am.Keys()
	if len(ks) != len(as) {
		return fmt.Sprintf("attributes %q, want %v", ks, as)
	}
	for _, a := range as {
		v, has := am.Get(a.Name)
		if !has {
			return fmt.Sprintf("attribute %s missing", a.Name)
		}
		want := norm(a.Want())
		if r := norm(v); r != want {
			return fmt.Sprintf("attribute %s\n    want %s\n    got  %s", a, clip(want), clip(r))
		}
	}
	return ""
}

// checkH5 compares a whole flat file.
func checkH5(c *fw.Ctx, f *h5gen.File) {
	g, b := openH5(c, f)
	if g == nil {
		return
	}
	checkRead(c, f, g, b)
}

// checkTypes is checkH5, and then reads the file with its datatypes as version 4 has them.
func checkTypes(c *fw.Ctx, f *h5gen.File) {
	g, b := openH5(c, f)
	if g == nil {
		return
	}
	checkRead(c, f, g, b)
	if c.Failed() || f.Libver == 0 {
		return
	}
	b = slices.Clone(b)
	n, err := damage.Types4(b)
	if err != nil {
		panic("CHECK BROKEN: " + c.Desc + ": " + err.Error())
	}
	if n == 0 {
		return
	}
	c.Note("files_with_version_4_types", 1)
	if p := obs.Safe(func() { g, err = hdf5.New(family.NewMem(b)) }); p != "" || err != nil {
		c.Failf("version 4 types: open: %v %s", err, p)
		return
	}
	checkRead(c, f, g, b)
}

// checkRead compares what is read of a flat file.
func checkRead(c *fw.Ctx, f *h5gen.File, g api.Group, b []byte) {
	for _, it := range f.Root.Items {
		if d, ok := it.(*h5gen.Dataset); ok {
			if bad := checkDataset(c, g, d); bad != "" {
				c.Failf("%s: %s", d.Name, bad)
				return
			}
		}
	}
	bad := ""
	c.Trans(1)
	if p := obs.Safe(func() { bad = checkAttrs(g.Attributes(), f.Root.Attrs) }); p != "" || bad != "" {
		c.Failf("group: %s%s", bad, p)
		return
	}
	g.Close()
	c.Trace(1)
	c.Sample(c.Desc)
	c.Outcome(string(b))
}

func init() {
	assume := []string{"libhdf5 1.10 writes the datasets it is given (its own reading of them is not re-checked here)"}
	reg := func(id, rule, bounds string, check func(*fw.Ctx, *h5gen.File), fams ...func(bool, family.YieldH5)) {
		fw.Register(&fw.Prop{ID: id, Level: "model_checking", Rule: rule, Bounds: func(string) string { return bounds }, Assumptions: assume,
			Enumerate: func(tier string, y fw.Yield) {
				for _, fam := range fams {
					fam(tier == "thorough", func(desc string, mk func() *h5gen.File) {
						y(func() string { return desc }, func(c *fw.Ctx) { check(c, mk()) })
					})
				}
			}})
	}
	reg("C06", "every dataset of a bounded family of storage layouts is written by the reference HDF5 library and read by the real reader; the model is the logical array that was written, with the fill value elsewhere",
		"all shapes x chunk shapes of rank 1..4 within extents 8/5/4/2 (thorough 16/7/4/3), some of rank 5 and 6; all 16 ordered subsets of the filters x 19 types x 4 shapes; all subsets of written chunks of 7 layouts; all single windows of two arrays in every layout; chunk indexes with 2, 4 and 6 entries per node up to 40 (thorough 140) chunks deep; arrays grown and shrunk after writing",
		checkH5,
		family.H5Chunks)
	reg("C07", "every type of a bounded grammar of HDF5 datatypes is written by the reference HDF5 library as dataset and as attribute in several shapes and layouts, and read by the real reader; the model is the values that were written",
		"all numeric types of both byte orders, strings of 3 paddings, enumerations, opaques; compounds of 1 and all pairs (thorough: triples) from a 10-type alphabet, with all combinations of holes; nesting to depth 4; up to 600 members, member offsets to 70000; shapes of rank 0..3 with empty ones; files of the newer formats also with their datatypes rewritten as version 4 (HDF5 1.12), and the checksums",
		checkTypes,
		family.H5Types, family.H5Attrs)
}
