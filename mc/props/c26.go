package props

import (
	"fmt"
	"os"
	"regexp"
	"slices"
	"sort"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// commonAttrs says whether attributes can be stored by both formats: numbers
// and text, not empty.
func commonAttrs(as []model.Attr) bool {
	for _, a := range as {
		if s, ok := a.Val.(string); ok {
			if s == "" {
				return false
			}
			continue
		}
		sh := model.Shape(a.Val)
		if len(sh) > 1 || len(sh) == 1 && sh[0] == 0 || model.ElemType(a.Val) == model.StringType {
			return false
		}
	}
	return true
}

// common says whether a content only uses features of both formats: numeric
// variables whose dimensions are all named and not empty, and scalar text.
func common(m *model.Group) bool {
	if len(m.Groups) > 0 || !commonAttrs(m.Attrs) {
		return false
	}
	ext := map[string]int{}
	for _, v := range m.Vars {
		if !commonAttrs(v.Attrs) {
			return false
		}
		sh := model.Shape(v.Vals)
		if s, ok := v.Vals.(string); ok {
			if s == "" || len(v.Dims) > 0 {
				return false
			}
			continue
		}
		t := model.ElemType(v.Vals)
		if t == nil || t == model.StringType || len(v.Dims) != len(sh) {
			return false
		}
		for i, d := range v.Dims {
			if n, has := ext[d]; sh[i] == 0 || has && n != sh[i] {
				return false
			}
			ext[d] = sh[i]
		}
		ok := false
		for _, nt := range model.NumTypes {
			ok = ok || nt == t
		}
		if !ok {
			return false
		}
	}
	return true
}

var attrLen = regexp.MustCompile(`<([a-z0-9]+)\(\d+\),`)

// commonTypes renders attributes with their types; CDF's type names say the
// length of a list, HDF5's only that it is one.
func commonTypes(am api.AttributeMap) string {
	return attrLen.ReplaceAllString(obs.Attrs(am, true), "<$1(*),")
}

// c26View is everything a caller sees that must not depend on the format: the
// order of variables and dimensions is not recorded by both, and scalar text
// has a type and a hidden dimension of its own in CDF.
func c26View(g api.Group, m *model.Group, calls *int) (out []string) {
	text := map[string]bool{}
	for _, v := range m.Vars {
		if _, ok := v.Vals.(string); ok {
			text[v.Name] = true
		}
	}
	named := map[string]bool{}
	for _, v := range m.Vars {
		for _, d := range v.Dims {
			named[d] = true
		}
	}
	vars := slices.Clone(g.ListVariables())
	sort.Strings(vars)
	out = append(out, "attributes "+commonTypes(g.Attributes()), fmt.Sprintf("variables %q groups %q types %q", vars, g.ListSubgroups(), g.ListTypes()))
	*calls += 4
	for _, d := range g.ListDimensions() {
		if !named[d] && len(text) == 0 {
			out = append(out, fmt.Sprintf("dimension %q that no variable has", d))
		}
	}
	for _, v := range m.Vars {
		for _, d := range v.Dims {
			n, has := g.GetDimension(d)
			out = append(out, fmt.Sprintf("dimension %q: %d %v", d, n, has))
			*calls++
		}
		x, err := g.GetVariable(v.Name)
		if err != nil {
			out = append(out, fmt.Sprintf("variable %q: %v", v.Name, err))
			continue
		}
		if text[v.Name] {
			x.Dimensions = nil
		}
		out = append(out, fmt.Sprintf("variable %q: %s dims %q attrs %s", v.Name, obs.Render(x.Values), x.Dimensions, commonTypes(x.Attributes)))
		*calls += 2
		vg, err := g.GetVarGetter(v.Name)
		if err != nil {
			out = append(out, fmt.Sprintf("getter %q: %v", v.Name, err))
			continue
		}
		if text[v.Name] {
			x, err := vg.Values()
			out = append(out, fmt.Sprintf("text %q: %s %v %s %s", v.Name, obs.Render(x), err, commonTypes(vg.Attributes()), vg.GoType()))
			continue
		}
		out = append(out, fmt.Sprintf("getter %q: %s %s len %d shape %v dims %q attrs %s", v.Name, vg.Type(), vg.GoType(), vg.Len(), vg.Shape(), vg.Dimensions(), commonTypes(vg.Attributes())))
		sl := func(what string, x any, err error) {
			*calls++
			out = append(out, fmt.Sprintf("slice %q %s: %s %v", v.Name, what, obs.Render(x), err != nil))
		}
		sh := vg.Shape()
		if len(sh) == 0 {
			x, err := vg.GetSlice(0, 1)
			sl("0,1", x, err)
			x, err = vg.GetSliceMD(nil, nil)
			sl("MD", x, err)
			continue
		}
		bs := append([]int64{-1, sh[0] + 1}, edgeBounds(sh[0])...)
		for _, b := range bs {
			for _, e := range bs {
				x, err := vg.GetSlice(b, e)
				sl(fmt.Sprint(b, e), x, err)
			}
		}
		windows(sh, 200, func(b, e []int64) bool {
			x, err := vg.GetSliceMD(b, e)
			sl(fmt.Sprint("MD", b, e), x, err)
			return true
		})
		for i := range sh {
			b, e := make([]int64, len(sh)), append([]int64{}, sh...)
			e[i]++
			x, err := vg.GetSliceMD(b, e)
			sl(fmt.Sprint("MD", b, e), x, err)
			b[i], e[i] = -1, sh[i]
			x, err = vg.GetSliceMD(b, e)
			sl(fmt.Sprint("MD", b, e), x, err)
		}
	}
	return out
}

func c26Check(c *fw.Ctx, m *model.Group) {
	var views [2][]string
	for i, kind := range []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5} {
		path := freshName(c)
		n, problem := family.Write(path, kind, m)
		c.Trans(n)
		if problem != "" {
			c.Failf("%v writer: %s", [2]string{"CDF", "HDF5"}[i], problem)
			os.Remove(path)
			return
		}
		calls := 0
		if p := obs.Safe(func() {
			g, err := netcdf.Open(path)
			if err != nil {
				c.Failf("%v: %v", [2]string{"CDF", "HDF5"}[i], err)
				return
			}
			views[i] = c26View(g, m, &calls)
			g.Close()
		}); p != "" {
			c.Failf("%v: %s", [2]string{"CDF", "HDF5"}[i], p)
		}
		c.Trans(calls)
		c.Trace(1)
		os.Remove(path)
		if c.Failed() {
			return
		}
	}
	if d := obs.Diff(views[0], views[1]); d != "" {
		c.Failf("CDF and HDF5 differ: %s", d)
		return
	}
	c.Note("facts_compared", len(views[0]))
	c.Outcome(fmt.Sprint(views[0]))
}

func c26Programs(thorough bool, y family.YieldGroup) {
	family.CDFPrograms(thorough, func(desc func() string, mk func() *model.Group) {
		if common(mk()) {
			y(desc, mk)
		}
	})
	family.H5Programs(thorough, func(must bool, desc func() string, mk func() *model.Group) {
		if must && common(mk()) {
			y(func() string { return "H5 " + desc() }, mk)
		}
	})
	// a text among numeric variables, with attributes of every type
	for _, txt := range []string{"a", "ab", "abc", "abcd", "abcde", "héllo", "a b ", " x"} {
		for _, t := range model.NumTypes {
			for order := range 2 {
				mk := func() *model.Group {
					at := []model.Attr{{Name: "one", Val: model.Make(t, nil, 3)}, {Name: "a", Val: txt}, {Name: "many", Val: model.Make(t, []int{3}, 3)}}
					vs := []model.Var{{Name: "t", Vals: txt, Attrs: at}, {Name: "n", Vals: model.Make(t, []int{3, 2}, 1), Dims: []string{"y", "x"}, Attrs: at}}
					if order == 1 {
						vs[0], vs[1] = vs[1], vs[0]
					}
					return &model.Group{Attrs: at, Vars: vs}
				}
				y(func() string { return "X " + mk().String() }, mk)
			}
		}
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C26", Level: "model_checking",
		Rule: "every program of both writers' families that only uses features common to both formats is executed on both real writers; both files are opened and every read call, type query and slice request made on both; the answers are compared one by one",
		Bounds: func(t string) string {
			return "the programs of the C01 and C04 families that pass the filter (numeric variables with named, non-empty dimensions, scalar text, non-empty attributes); per variable all slice windows up to 200, or those at the ends, and out-of-range requests"
		},
		Assumptions: []string{"the CDL type of a list attribute is compared without its length (int(3) in CDF is int(*) in HDF5; unit tests of both fix that)", "the order of variables and dimensions is not compared (the HDF5 writer does not record it)", "CDL type, shape, slices and dimensions of scalar text are not compared (CDF stores an array of characters with a dimension of its own)"},
		Enumerate: func(tier string, y fw.Yield) {
			c26Programs(tier == "thorough", func(desc func() string, mk func() *model.Group) {
				y(desc, func(c *fw.Ctx) { c26Check(c, mk()) })
			})
		},
	})
}
